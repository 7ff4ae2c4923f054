/* declarations only: the proof treats OpenMP pragmas as sequential */
#pragma once
int omp_get_thread_num(void); int omp_get_max_threads(void); int omp_get_num_threads(void); void omp_set_num_threads(int);
double omp_get_wtime(void);
int omp_in_parallel(void); int omp_get_num_procs(void); int omp_get_level(void); void omp_set_dynamic(int); void omp_set_nested(int); int omp_get_dynamic(void); void omp_set_max_active_levels(int);
