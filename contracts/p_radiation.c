/* P08: radiation patterns.  Specification: the moment tensor (north, east, down) or the force, rotated into the ray frame at the azimuth;
 * every mechanism is a special moment tensor; the azimuthal derivative is the derivative. */
#include "cv.h"
#include <string.h>
#include <tgmath.h>
#include "grt/common/const.h"
#include "grt/common/radiation.h"
#include "radspec.h"
static void same(const char *nm, const realChnlGrid A, const realChnlGrid B) { for (int i = 0; i < 6; i++) for (int c = 0; c < 3; c++) cv_eq(nm, A[i][c], B[i][c]); }
static void sub_derivative(const char *nm, const realChnlGrid D, const realChnlGrid R) { for (int i = 0; i < 6; i++) for (int c = 0; c < 3; c++) cv_eq(nm, D[i][c], cv_diff(R[i][c], "azimuth")); }
static real_t az, M0, coef, ratio, par[6];
static void run(GRT_SYN_TYPE t, realChnlGrid R, realChnlGrid D)
{
    memset(R, 0, sizeof(realChnlGrid)); memset(D, 0, sizeof(realChnlGrid));
    grt_set_source_radiation(R, t, false, M0, coef, ratio, az, par);
    grt_set_source_radiation(D, t, true, M0, coef, ratio, az, par);
}
static void in(void) { az = cv_real("azimuth", -7, 7); M0 = cv_pos("M0", 1e19, 1e21); coef = cv_real("coef", -2, 2); ratio = cv_pos("VpVs", 1.2, 3); cv_tol(1e-6, 1e-5); for (int i = 0; i < 6; i++) par[i] = 0; }
/* cv: force */
void H_rad_force(void)
{
    in(); par[0] = cv_real("fn", -2, 2); par[1] = cv_real("fe", -2, 2); par[2] = cv_real("fz", -2, 2);
    realChnlGrid R, D, S; run(GRT_SYN_SF, R, D); spec_F(az, par, 1e-15*M0*coef, S);
    same("force radiation", R, S); sub_derivative("azimuthal derivative", D, S);
}
void H_rad_explosion(void)
{
    in(); realChnlGrid R, D, S; run(GRT_SYN_EX, R, D); memset(S, 0, sizeof S); S[0][0] = S[0][1] = 1e-20*M0*coef;
    same("explosion radiation", R, S); memset(S, 0, sizeof S); same("no azimuthal variation", D, S);
}
void H_rad_tensor(void)
{
    in(); real_t M[3][3]; for (int i = 0; i < 6; i++) par[i] = cv_real("M", -2, 2);
    M[0][0] = par[0]; M[0][1] = M[1][0] = par[1]; M[0][2] = M[2][0] = par[2]; M[1][1] = par[3]; M[1][2] = M[2][1] = par[4]; M[2][2] = par[5];
    realChnlGrid R, D, S; run(GRT_SYN_MT, R, D); spec_MT(az, M, 1e-20*M0*coef, S);
    same("moment tensor radiation", R, S); sub_derivative("azimuthal derivative", D, S);
}
void H_rad_double_couple(void)
{
    in(); for (int i = 0; i < 3; i++) par[i] = cv_real("angle", -180, 180);
    real_t d[3], n[3], M[3][3]; fault(par[0]*PI/180, par[1]*PI/180, par[2]*PI/180, d, n);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) M[i][j] = d[i]*n[j] + d[j]*n[i];
    realChnlGrid R, D, S; run(GRT_SYN_DC, R, D); spec_MT(az, M, 1e-20*M0*coef, S); S[0][0] = S[0][1] = 0;
    same("double couple radiation", R, S); sub_derivative("azimuthal derivative", D, S);
}
void H_rad_tensile(void)
{
    in(); for (int i = 0; i < 2; i++) par[i] = cv_real("angle", -180, 180);
    real_t d[3], n[3], M[3][3]; fault(par[0]*PI/180, par[1]*PI/180, 0, d, n);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) M[i][j] = 2*n[i]*n[j] + (i == j ? ratio*ratio - 2 : 0);     /* lambda/mu = (vp/vs)^2 - 2 */
    realChnlGrid R, D, S; run(GRT_SYN_TS, R, D); spec_MT(az, M, 1e-20*M0*coef, S);
    same("tensile crack radiation", R, S); sub_derivative("azimuthal derivative", D, S);
}
