/* Contract language of the verifier (cv/).  The same harness is
 *  (a) interpreted symbolically over the real functions' clang AST (proof), and
 *  (b) compiled against the real sources with cv_rt.c (counterexample replay). */
#pragma once
#include <complex.h>
double cv_real(const char *name, double lo, double hi);          /* any real (lo,hi: replay sampling hint only) */
double cv_pos(const char *name, double lo, double hi);           /* any real > 0 */
double _Complex cv_cplx(const char *name, double lo, double hi); /* any complex number */
int cv_choose(const char *name, int n);                          /* every value of 0..n-1 */
int cv_size(const char *name, int lo, int hi, int hi_thorough);  /* bounded size */
long cv_nat(const char *name, long lo, long hi);                 /* any integer in [lo,hi] */
void cv_assume(int c);
void cv_assume_lt(double a, double b);
void cv_assume_le(double a, double b);
void cv_assume_eq(double _Complex a, double _Complex b);
void cv_assume_ne(double _Complex a, double _Complex b);
void cv_eq_(const char *name, double _Complex a, double _Complex b);
void cv_ne_(const char *name, double _Complex a, double _Complex b);
void cv_lt(const char *name, double a, double b);
void cv_le(const char *name, double a, double b);
void cv_true(const char *name, int c);
double _Complex cv_diff_(double _Complex f, const char *var);
double _Complex cv_diff2_(double _Complex f, const char *v1, const char *v2);
double _Complex cv_uf(const char *name, double x);
double cv_ufr(const char *name, double x);
double cv_bessel(int n, double x);
void cv_exit_ok(void);                                            /* the program may stop from here on */
void cv_must_exit(const char *name);                              /* the program must stop with an error from here on */
void cv_cover(const char *name);
void cv_tol(double rel, double abs_);                            /* replay tolerance */
void cv_fs(void);                                                 /* empty scratch working directory */
void cv_stdout(const char *path);                                /* standard output goes to this file */
void cv_getopt_reset(void);
#define cv_eq(n, a, b) cv_eq_(n, a, b)
#define cv_ne(n, a, b) cv_ne_(n, a, b)
#define cv_diff(f, v) cv_diff_(f, v)
#define cv_diff2(f, a, b) cv_diff2_(f, a, b)
#define cv_diffr(f, v) ((double)__real__(cv_diff_(f, v)))
#define cv_diff2r(f, a, b) ((double)__real__(cv_diff2_(f, a, b)))
