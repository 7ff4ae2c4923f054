/* elastostatic layered medium: mu, delta free; lambda = mu(3 delta - 1)/(1 - delta) */
#pragma once
#include "medium.h"
static MODEL1D_STATE *smed_new(int n)
{
    MODEL1D *mod = grt_init_mod1d(n);
    MODEL1D_STATE *st = grt_init_mod1d_state(mod);
    st->k = cv_pos("k", 0.3, 3);
    return st;
}
static void smed_set(MODEL1D_STATE *st, int i, cplx_t mu, cplx_t delta, real_t rho, real_t thk)
{
    MODEL1D *mod = st->mod1d;
    mod->Rho[i] = rho; mod->Thk[i] = thk; mod->isLiquid[i] = 0;
    st->mu[i] = mu; st->delta[i] = delta;
    st->lambda[i] = mu*(3*delta - 1)/(1 - delta);
}
static void smed_layer(MODEL1D_STATE *st, int i)
{
    cplx_t mu = cv_cplx("mu", 0.5, 3), de = cv_cplx("delta", 0.2, 0.9);
    cv_assume_ne(mu, 0); cv_assume_ne(de, 0); cv_assume_ne(1 - de, 0); cv_assume_ne(1 + de, 0);
    smed_set(st, i, mu, de, cv_pos("rho", 1, 4), cv_pos("thk", 0.2, 2));
}
/* fundamental fields at depth z below the layer top: 0,1 growing with z (up-going), 2,3 decaying (down-going); rows q,w,sR,sV.
 * Lemma H_static_fields shows that they solve the equilibrium equations. */
static void sspec_F(const MODEL1D_STATE *st, int i, real_t z, cplx_t F[4][4])
{
    cplx_t k = st->k, d = st->delta[i], mu = st->mu[i], lam = st->lambda[i], s = 2*d*k*z;
    cplx_t e = exp(st->k*z), f = exp(-st->k*z);
    cplx_t q[4] = {e, -(1 + s)*e, f, (s - 1)*f};
    cplx_t w[4] = {e, (1 - s)*e, -f, -(1 + s)*f};
    cplx_t qz[4] = {k*e, -k*(1 + s)*e - 2*d*k*e, -k*f, -k*(s - 1)*f + 2*d*k*f};
    cplx_t wz[4] = {k*e, k*(1 - s)*e - 2*d*k*e, k*f, k*(1 + s)*f - 2*d*k*f};
    for (int j = 0; j < 4; j++) {
        F[0][j] = q[j]; F[1][j] = w[j];
        F[2][j] = (lam + 2*mu)*wz[j] - lam*k*q[j];
        F[3][j] = mu*(qz[j] + k*w[j]);
    }
}
static void sspec_T(const MODEL1D_STATE *st, int i, real_t z, cplx_t T[2][2])
{
    cplx_t k = st->k, mu = st->mu[i], e = exp(st->k*z), f = exp(-st->k*z);
    T[0][0] = e; T[0][1] = f; T[1][0] = mu*k*e; T[1][1] = -mu*k*f;
}
