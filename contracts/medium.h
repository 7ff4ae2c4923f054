/* layered-medium setup for harnesses: a rational parametrisation of (omega, k, medium) so that
 * xa^2 = 1-(c/va)^2, xb^2 = 1-(c/vb)^2, rho c^2 = mu*(c/vb)^2 hold identically, for arbitrary complex moduli. */
#pragma once
#include "spec.h"

static MODEL1D_STATE *med_new(int n, cplx_t *pC)
{
    MODEL1D *mod = grt_init_mod1d(n);
    MODEL1D_STATE *st = grt_init_mod1d_state(mod);
    real_t k = cv_pos("k", 0.3, 3);
    cplx_t C = cv_cplx("C", 0.5, 4);
    cv_assume_ne(C, 0);
    st->k = k; st->c_phase = C; st->omega = k * C;
    *pC = C;
    return st;
}
static void med_layer(MODEL1D_STATE *st, int i, int liquid)
{
    MODEL1D *mod = st->mod1d;
    real_t rho = cv_pos("rho", 1, 4);
    cplx_t xa = cv_cplx("xa", 0.2, 2), C = st->c_phase;
    cv_assume_ne(xa, 0);
    mod->Rho[i] = rho;
    mod->Thk[i] = cv_pos("thk", 0.2, 2);
    mod->isLiquid[i] = liquid;
    st->xa[i] = xa; st->caca[i] = 1 - xa*xa;
    cv_assume_ne(st->caca[i], 0);
    if (liquid) {
        st->xb[i] = 1; st->cbcb[i] = 0; st->mu[i] = 0;
        st->lambda[i] = rho*C*C/st->caca[i];
    } else {
        cplx_t xb = cv_cplx("xb", 0.2, 2);
        cv_assume_ne(xb, 0);
        st->xb[i] = xb; st->cbcb[i] = 1 - xb*xb;
        cv_assume_ne(st->cbcb[i], 0);
        cv_assume_ne(2 - st->cbcb[i], 0);
        st->mu[i] = rho*C*C/st->cbcb[i];
        st->lambda[i] = rho*C*C/st->caca[i] - 2*st->mu[i];
    }
}
/* displacement-stress vectors (q, w, sigma_R, sigma_V) of the 4 wave fields: columns 0,1 = up-going P,SV; 2,3 = down-going P,SV.
 * Lemma H_spec_fields shows that they solve the equations of motion. */
static void spec_D(const MODEL1D_STATE *st, int i, cplx_t D[4][4])
{
    cplx_t k = st->k, xa = st->xa[i], xb = st->xb[i], mu = st->mu[i], lam = st->lambda[i];
    int liq = st->mod1d->isLiquid[i];
    for (int s = 0; s < 2; s++) {
        cplx_t sg = s == 0 ? 1 : -1;   /* up: d/dz = +k x ; down: d/dz = -k x */
        cplx_t pq = k, pw = sg*k*xa, dz = sg*k*xa;
        D[0][2*s] = pq; D[1][2*s] = pw;
        D[2][2*s] = (lam + 2*mu)*dz*pw - lam*k*pq;
        D[3][2*s] = liq ? 0 : mu*(dz*pq + k*pw);
        cplx_t sq = liq ? 0 : sg*k*xb, sw = liq ? 0 : k, ds = sg*k*xb;
        D[0][2*s+1] = sq; D[1][2*s+1] = sw;
        D[2][2*s+1] = (lam + 2*mu)*ds*sw - lam*k*sq;
        D[3][2*s+1] = liq ? 0 : mu*(ds*sq + k*sw);
    }
}
/* SH: (v, tau) of up-going / down-going */
static void spec_T(const MODEL1D_STATE *st, int i, cplx_t T[2][2])
{
    cplx_t k = st->k, xb = st->xb[i], mu = st->mu[i];
    T[0][0] = k; T[0][1] = k; T[1][0] = mu*k*xb*k; T[1][1] = -mu*k*xb*k;
}
