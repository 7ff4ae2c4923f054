/* P06: source coefficients = jump of the displacement-stress vector prescribed by the equivalent body force.
 * N is the source unit (dynamic: -2 rho omega^2, static: +2 mu); the global factors applied to the Green's functions
 * are its reciprocal up to 1/(2 pi) (checked in the Green's function contract). */
#include "static_medium.h"

static void jumps(const char *who, cplx_t J[6][6], cplx_t N, cplx_t mu, cplx_t lam, cplx_t k)
{   /* J[src] = [q], [w], [sR], [sV], [v], [tau] */
    (void)who;
    cplx_t m = lam + 2*mu;
    for (int s = 0; s < 6; s++) {
        cplx_t e[6] = {0, 0, 0, 0, 0, 0};
        if (s == 0) { e[1] = N/m; e[3] = N*(k - k*lam/m); }                 /* isotropic: M = I */
        if (s == 1) { e[2] = -N; }                                            /* unit downward force */
        if (s == 2) { e[3] = -N; e[5] = N; }                                  /* unit horizontal force */
        if (s == 3) { e[1] = 2*N/m; e[3] = N*(-k - 2*k*lam/m); }             /* M = diag(-1,-1,2) */
        if (s == 4) { e[0] = -N/mu; e[4] = N/mu; }                            /* dip slip: Mxz */
        if (s == 5) { e[3] = -k*N; e[5] = k*N; }                              /* strike slip */
        const char *nm[6] = {"jump of horizontal displacement", "jump of vertical displacement", "jump of normal traction", "jump of shear traction", "jump of SH displacement", "jump of SH traction"};
        for (int c = 0; c < 6; c++) cv_eq(nm[c], J[s][c], e[c]);
    }
}
void H_source_dynamic(void)
{
    cplx_t C; MODEL1D_STATE *st = med_new(2, &C); int is = cv_choose("isrc", 2);
    med_layer(st, 0, 0); med_layer(st, 1, 0);
    st->mod1d->isrc = is;
    cplxChnlGrid cD, cU;
    for (int i = 0; i < GRT_SRC_M_NUM; i++) for (int j = 0; j < GRT_CHANNEL_NUM; j++) { cD[i][j] = cv_cplx("junk", -1, 1); cU[i][j] = cv_cplx("junk", -1, 1); }
    grt_source_coef(st, cD, cU);
    cplx_t D[4][4], T[2][2], J[6][6]; spec_D(st, is, D); spec_T(st, is, T);
    for (int s = 0; s < 6; s++) {
        for (int r = 0; r < 4; r++) J[s][r] = D[r][2]*cD[s][0] + D[r][3]*cD[s][1] - D[r][0]*cU[s][0] - D[r][1]*cU[s][1];
        for (int r = 0; r < 2; r++) J[s][4+r] = T[r][1]*cD[s][2] - T[r][0]*cU[s][2];
    }
    jumps("dynamic", J, -2*st->mod1d->Rho[is]*st->omega*st->omega, st->mu[is], st->lambda[is], st->k);
}
void H_source_static(void)
{
    MODEL1D_STATE *st = smed_new(2); int is = cv_choose("isrc", 2);
    smed_layer(st, 0); smed_layer(st, 1);
    st->mod1d->isrc = is;
    cplxChnlGrid cD, cU;
    for (int i = 0; i < GRT_SRC_M_NUM; i++) for (int j = 0; j < GRT_CHANNEL_NUM; j++) { cD[i][j] = cv_cplx("junk", -1, 1); cU[i][j] = cv_cplx("junk", -1, 1); }
    grt_static_source_coef(st, cD, cU);
    cplx_t D[4][4], T[2][2], J[6][6]; sspec_F(st, is, 0, D); sspec_T(st, is, 0, T);
    for (int s = 0; s < 6; s++) {
        for (int r = 0; r < 4; r++) J[s][r] = D[r][2]*cD[s][0] + D[r][3]*cD[s][1] - D[r][0]*cU[s][0] - D[r][1]*cU[s][1];
        for (int r = 0; r < 2; r++) J[s][4+r] = T[r][1]*cD[s][2] - T[r][0]*cU[s][2];
    }
    jumps("static", J, 2*st->mu[is], st->mu[is], st->lambda[is], st->k);
}
