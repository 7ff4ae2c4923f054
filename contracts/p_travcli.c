/* P19: the travt command lists the P and S time of every requested distance, for the given model and depths. */
/*@cvfile wrap=grt_compute_travt1d */
#include "cv.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#include "grt/common/const.h"
#include "grt/common/model.h"
#include "grt/common/travt.h"
int travt_main(int argc, char **argv);
static real_t va[2], vb[2], th, zs, zr, rr[5]; static int nr, ncall;
static real_t speed(const real_t *c, real_t z) { return z <= th ? c[0] : c[1]; }
real_t contract__grt_compute_travt1d(const real_t *Thk, const real_t *Vel, const size_t nlay, const size_t is, const size_t ir, const real_t dist)
{
    real_t ds = 0, dr = 0; int shear = ncall % 2, k = ncall/2; const real_t *c = shear ? vb : va; cv_true("number of calls", k < nr && is < nlay && ir < nlay);
    for (size_t i = 0; i < is; i++) ds += Thk[i]; for (size_t i = 0; i < ir; i++) dr += Thk[i];
    cv_eq("source depth", ds, zs); cv_eq("receiver depth", dr, zr); cv_eq("distance", dist, rr[k]); cv_eq("velocity at the source", Vel[is], speed(c, zs)); cv_eq("velocity at the receiver", Vel[ir], speed(c, zr)); cv_eq("velocity at the bottom", Vel[nlay - 1], c[1]); cv_eq("velocity at the top", Vel[0], c[0]);
    return 0.125*++ncall;
}
static void setup(void)
{
    cv_fs(); cv_tol(1e-9, 1e-12); cv_stdout("log"); cv_getopt_reset(); ncall = 0; th = 3; for (int i = 0; i < 2; i++) { va[i] = cv_pos("vp", 4, 8); vb[i] = cv_pos("vs", 2, 4); }
    FILE *f = fopen("m", "w"); fprintf(f, "3 %.17g %.17g 2.5\n0 %.17g %.17g 2.7\n", va[0], vb[0], va[1], vb[1]); fclose(f);
}
/*@cv bounded=1 */
void H_command(void)
{
    static const char *R[] = {"-R10,20,35.5", "-R7", "-R1/2/0.25", "-R0/9/3", "-Rlist", "-R0.1/0.3/0.1"}; static const real_t V[6][6] = {{3, 10, 20, 35.5}, {1, 7}, {5, 1, 1.25, 1.5, 1.75, 2}, {4, 0, 3, 6, 9}, {3, 2, 4.5, 8}, {3, 0.1, 0.2, 0.3}};
    static const char *D[] = {"-D2/0", "-D0.5/4", "-D5/5"}; static const real_t Z[3][2] = {{2, 0}, {0.5, 4}, {5, 5}};
    setup(); int k = cv_choose("distances", 6), d = k % 3; nr = (int)V[k][0]; for (int i = 0; i < nr; i++) rr[i] = V[k][i + 1]; zs = Z[d][0]; zr = Z[d][1];
    if (k == 4) { FILE *f = fopen("list", "w"); fprintf(f, "2\n4.5\n8\n"); fclose(f); }
    char *av[5] = {"travt", "-Mm", (char *)D[d], (char *)R[k], 0}; cv_true("success", travt_main(4, av) == 0); cv_true("two times per distance", ncall == 2*nr);
    fflush(stdout); FILE *f = fopen("log", "r"); char line[256]; int rows = 0; cv_true("output", f != NULL);
    while (fgets(line, sizeof line, f)) { double r, p, s; if (line[0] == '-' || 3 != sscanf(line, "%lf %lf %lf", &r, &p, &s)) continue; cv_true("rows", rows < nr); cv_eq("listed distance", r, rr[rows]); cv_le("listed P time", fabs(p - 0.125*(2*rows + 1)), 0.0005); cv_le("listed S time", fabs(s - 0.125*(2*rows + 2)), 0.0005); rows++; }
    cv_true("one row per distance", rows == nr); fclose(f);
}
/*@cv bounded=1 */
void H_refused(void)
{
    static const char *B[] = {"-D-1/0", "-D1/-1", "-D1", "-R5,3", "-R-1,2", "-R3,3", "-R5/3/1", "-R1/3/0", "-R1/3/-1", "-Rnofile", "-Mnofile", "-Q"};
    setup(); int k = cv_choose("case", 15); char *av[6] = {"travt", "-Mm", "-D2/0", "-R3,4", 0, 0}; int na = 4; if (k < 12) av[na++] = (char *)B[k]; else { for (int i = k - 12 + 1; i < 4; i++) av[i] = av[i + 1]; na = 3; }
    zs = 2; zr = 0; nr = 2; rr[0] = 3; rr[1] = 4; cv_must_exit("invalid request is refused"); travt_main(na, av);
}
