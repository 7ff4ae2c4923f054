/* P05: the layered-medium kernel solves the boundary-value problem.
 * Specification: Thomson-Haskell propagation of the displacement-stress vector (q,w,sR,sV) through the layers with the
 * prescribed jump at the source depth, the top condition and the bottom condition; no reflection/transmission matrices. */
#include "static_medium.h"

typedef struct { cplx_t v[4]; } Y4;
/* solve A x = b (4x4) by elimination in the given order */
static void gauss4(const cplx_t A[4][4], const cplx_t b[4], cplx_t x[4])
{
    cplx_t m[4][5];
    for (int i = 0; i < 4; i++) { for (int j = 0; j < 4; j++) m[i][j] = A[i][j]; m[i][4] = b[i]; }
    for (int c = 0; c < 4; c++) for (int i = 0; i < 4; i++) if (i != c) {
        cplx_t f = m[i][c]/m[c][c];
        for (int j = c; j < 5; j++) m[i][j] -= f*m[c][j];
    }
    for (int i = 0; i < 4; i++) x[i] = m[i][4]/m[i][i];
}
/* mode of the harness: dynamic or static fields */
static int STATIC;
static void fields(const MODEL1D_STATE *st, int i, real_t z, cplx_t F[4][4])
{
    if (STATIC) { sspec_F(st, i, z, F); return; }
    spec_D(st, i, F);
    cplx_t ea = exp(-st->k*st->xa[i]*z), eb = exp(-st->k*st->xb[i]*z);
    for (int r = 0; r < 4; r++) { F[r][0] /= ea; F[r][1] /= eb; F[r][2] *= ea; F[r][3] *= eb; }
}
static void fieldsL(const MODEL1D_STATE *st, int i, real_t z, cplx_t T[2][2])
{
    if (STATIC) { sspec_T(st, i, z, T); return; }
    spec_T(st, i, T);
    cplx_t eb = exp(-st->k*st->xb[i]*z);
    for (int r = 0; r < 2; r++) { T[r][0] /= eb; T[r][1] *= eb; }
}
static Y4 through(const MODEL1D_STATE *st, int i, Y4 y)
{
    cplx_t F0[4][4], F1[4][4], a[4]; Y4 r;
    fields(st, i, 0, F0); fields(st, i, st->mod1d->Thk[i], F1);
    gauss4(F0, y.v, a);
    for (int q = 0; q < 4; q++) { r.v[q] = 0; for (int j = 0; j < 4; j++) r.v[q] += F1[q][j]*a[j]; }
    return r;
}
static S21 throughL(const MODEL1D_STATE *st, int i, S21 y)
{
    cplx_t T0[2][2], T1[2][2]; S21 r;
    fieldsL(st, i, 0, T0); fieldsL(st, i, st->mod1d->Thk[i], T1);
    cplx_t d = T0[0][0]*T0[1][1] - T0[0][1]*T0[1][0];
    cplx_t a0 = (y.v[0]*T0[1][1] - T0[0][1]*y.v[1])/d, a1 = (T0[0][0]*y.v[1] - y.v[0]*T0[1][0])/d;
    for (int q = 0; q < 2; q++) r.v[q] = T1[q][0]*a0 + T1[q][1]*a1;
    return r;
}
static void source_jump(int s, cplx_t N, cplx_t mu, cplx_t lam, cplx_t k, cplx_t e[6])
{
    cplx_t m = lam + 2*mu;
    for (int i = 0; i < 6; i++) e[i] = 0;
    if (s == 0) { e[1] = N/m; e[3] = N*(k - k*lam/m); }
    if (s == 1) { e[2] = -N; }
    if (s == 2) { e[3] = -N; e[5] = N; }
    if (s == 3) { e[1] = 2*N/m; e[3] = N*(-k - 2*k*lam/m); }
    if (s == 4) { e[0] = -N/mu; e[4] = N/mu; }
    if (s == 5) { e[3] = -k*N; e[5] = k*N; }
}
static int SURF;      /* source and receiver both exactly at the top */
static void check_field(MODEL1D_STATE *st, cplx_t N, cplxChnlGrid QWV, cplxChnlGrid QZ, int s)
{
    MODEL1D *mod = st->mod1d;
    int n = mod->n, isrc = mod->isrc, ircv = mod->ircv;
    cplx_t F[4][4], T[2][2], k = st->k, e[6];
    if (SURF && s == 4 && mod->topbound == GRT_BOUND_FREE) {   /* slip on a free surface: nothing below moves; the sheet above is a delta function at zero distance */
        for (int c = 0; c < 3; c++) { cv_eq("DS source on the free surface", QWV[s][c], 0); if (QZ) cv_eq("DS source on the free surface, derivative", QZ[s][c], 0); }
        return;
    }
    source_jump(s, N, st->mu[isrc], st->lambda[isrc], k, e);
    int last = mod->botbound == GRT_BOUND_HALFSPACE ? n - 1 : n - 2;   /* last layer treated as finite is last-1 (half-space) or last */
    /* y = c0*Y[0] + c1*Y[1] + Y[2]  (Y[2]: particular field created at the source) */
    Y4 Y[3], R[3]; S21 L[2], RL[2];
    memset(Y, 0, sizeof Y); memset(L, 0, sizeof L); memset(R, 0, sizeof R); memset(RL, 0, sizeof RL);
    if (mod->topbound == GRT_BOUND_FREE) { Y[0].v[0] = 1; Y[1].v[1] = 1; L[0].v[0] = 1; }
    else if (mod->topbound == GRT_BOUND_RIGID) { Y[0].v[2] = 1; Y[1].v[3] = 1; L[0].v[1] = 1; }
    else { fields(st, 0, 0, F); fieldsL(st, 0, 0, T); for (int r = 0; r < 4; r++) { Y[0].v[r] = F[r][0]; Y[1].v[r] = F[r][1]; } L[0].v[0] = T[0][0]; L[0].v[1] = T[1][0]; }
    for (int iy = 1; iy <= (last == n - 1 ? n - 1 : n - 1); iy++) {
        for (int c = 0; c < 3; c++) Y[c] = through(st, iy - 1, Y[c]);
        for (int c = 0; c < 2; c++) L[c] = throughL(st, iy - 1, L[c]);
        if (iy == isrc) { for (int r = 0; r < 4; r++) Y[2].v[r] += e[r]; L[1].v[0] += e[4]; L[1].v[1] += e[5]; }
        if (iy == ircv) { for (int c = 0; c < 3; c++) R[c] = Y[c]; for (int c = 0; c < 2; c++) RL[c] = L[c]; }
    }
    /* bottom condition: two linear functionals vanish */
    cplx_t g[3][2], gl[2];
    for (int c = 0; c < 3; c++) {
        if (mod->botbound == GRT_BOUND_FREE) { g[c][0] = Y[c].v[2]; g[c][1] = Y[c].v[3]; }
        else if (mod->botbound == GRT_BOUND_RIGID) { g[c][0] = Y[c].v[0]; g[c][1] = Y[c].v[1]; }
        else { cplx_t a[4]; fields(st, n - 1, 0, F); gauss4(F, Y[c].v, a); g[c][0] = a[0]; g[c][1] = a[1]; }
    }
    for (int c = 0; c < 2; c++) {
        if (mod->botbound == GRT_BOUND_FREE) gl[c] = L[c].v[1];
        else if (mod->botbound == GRT_BOUND_RIGID) gl[c] = L[c].v[0];
        else { fieldsL(st, n - 1, 0, T); gl[c] = L[c].v[0]*T[1][1] - L[c].v[1]*T[0][1]; }
    }
    cplx_t det = g[0][0]*g[1][1] - g[1][0]*g[0][1];
    cplx_t c0 = -(g[2][0]*g[1][1] - g[1][0]*g[2][1])/det, c1 = -(g[0][0]*g[2][1] - g[2][0]*g[0][1])/det, cl = -gl[1]/gl[0];
    cplx_t y[4], l[2], mu = st->mu[ircv], lam = st->lambda[ircv];
    for (int r = 0; r < 4; r++) y[r] = c0*R[0].v[r] + c1*R[1].v[r] + R[2].v[r];
    for (int r = 0; r < 2; r++) l[r] = cl*RL[0].v[r] + RL[1].v[r];
    cv_eq("horizontal displacement (q) at the receiver", QWV[s][0], y[0]);
    cv_eq("vertical displacement (w) at the receiver", QWV[s][1], y[1]);
    cv_eq("SH displacement (v) at the receiver", QWV[s][2], l[0]);
    if (QZ) {
        cv_eq("dq/dz at the receiver", QZ[s][0], y[3]/mu - k*y[1]);
        cv_eq("dw/dz at the receiver", QZ[s][1], (y[2] + lam*k*y[0])/(lam + 2*mu));
        cv_eq("dv/dz at the receiver", QZ[s][2], l[1]/mu);
    }
}
static void geometry(MODEL1D *mod, int n, int i1, int i2, int up)
{
    (void)n;
    mod->isrc = up ? i2 : i1; mod->ircv = up ? i1 : i2; mod->ircvup = up; mod->srcrcv_isInserted = true;
    if (SURF) mod->depsrc = mod->deprcv = 0;
    else { mod->depsrc = cv_pos("depsrc", 0.1, 5); mod->deprcv = cv_pos("deprcv", 0.1, 5); }
}
static void dyn_case(int n, int i1, int i2, int up, int top, int bot)
{
    STATIC = 0;
    MODEL1D *mod = grt_init_mod1d(n); MODEL1D_STATE *st = grt_init_mod1d_state(mod);
    real_t k = cv_pos("k", 0.5, 2); cplx_t om = cv_cplx("omega", 0.5, 3);
    cv_assume_lt(0, creal(om));
    st->omega = om;
    geometry(mod, n, i1, i2, up);
    mod->topbound = top == 0 ? GRT_BOUND_FREE : top == 1 ? GRT_BOUND_RIGID : GRT_BOUND_HALFSPACE;
    mod->botbound = bot == 0 ? GRT_BOUND_HALFSPACE : bot == 1 ? GRT_BOUND_FREE : GRT_BOUND_RIGID;
    for (int i = 0; i < n; i++) {
        mod->Thk[i] = SURF && i < i2 ? 0 : cv_pos("thk", 0.1, 0.6); mod->isLiquid[i] = 0;
        if (i == i1 || i == i2) { mod->Va[i] = mod->Va[i-1]; mod->Vb[i] = mod->Vb[i-1]; mod->Rho[i] = mod->Rho[i-1]; st->atna[i] = st->atna[i-1]; st->atnb[i] = st->atnb[i-1]; }
        else {
            mod->Va[i] = cv_pos("va", 2, 4); mod->Vb[i] = cv_pos("vb", 1, 2); mod->Rho[i] = cv_pos("rho", 1, 3);
            st->atna[i] = cv_cplx("atna", 0.8, 1.2); st->atnb[i] = cv_cplx("atnb", 0.8, 1.2);
            cv_assume_ne(st->atna[i], 0); cv_assume_ne(st->atnb[i], 0);
        }
        cplx_t a = mod->Va[i]*st->atna[i], b = mod->Vb[i]*st->atnb[i];
        st->mu[i] = mod->Rho[i]*b*b; st->lambda[i] = mod->Rho[i]*a*a - 2*st->mu[i];
    }
    cplxChnlGrid Q, QZ;
    grt_kernel(st, k, Q, true, QZ);
    if (st->M_FA.stats || st->M_RS.stats || st->M_BL.stats || st->M_top.stats || st->M_bot.stats || st->M_AL.stats || st->M_FB.stats) return;
    for (int i = 1; i < n; i++) { if (i == i1 || i == i2) continue; RT_MATRIX M; in_RT("unused", &M); grt_RT_matrix_PSV(st, i, &M); if (M.stats) return; }   /* singular interface */
    grt_topbound_RU_PSV(st); if (st->M_top.stats) return;                 /* singular surface */
    if (i2 + 1 < n) { grt_botbound_RD_PSV(st); if (st->M_bot.stats) return; }
    cplx_t C = om/k;
    for (int i = 0; i < n; i++) {   /* the vertical wavenumbers of the specification */
        cplx_t a = mod->Va[i]*st->atna[i], b = mod->Vb[i]*st->atnb[i];
        st->xa[i] = sqrt(1 - C*C/(a*a)); st->xb[i] = sqrt(1 - C*C/(b*b));
    }
    for (int s = 0; s < 6; s++) check_field(st, -2*mod->Rho[mod->isrc]*om*om, Q, QZ, s);
}
static void sta_case(int n, int i1, int i2, int up, int top, int bot)
{
    STATIC = 1;
    MODEL1D_STATE *st = smed_new(n); MODEL1D *mod = st->mod1d;
    geometry(mod, n, i1, i2, up);
    mod->topbound = top == 0 ? GRT_BOUND_FREE : top == 1 ? GRT_BOUND_RIGID : GRT_BOUND_HALFSPACE;
    mod->botbound = bot == 0 ? GRT_BOUND_HALFSPACE : bot == 1 ? GRT_BOUND_FREE : GRT_BOUND_RIGID;
    for (int i = 0; i < n; i++) {
        if (i == i1 || i == i2) smed_set(st, i, st->mu[i-1], st->delta[i-1], mod->Rho[i-1], cv_pos("thk", 0.2, 2));
        else smed_layer(st, i);
        if (SURF && i < i2) mod->Thk[i] = 0;
    }
    cplxChnlGrid Q, QZ; real_t k = st->k;
    grt_static_kernel(st, k, Q, true, QZ);
    if (st->M_FA.stats || st->M_RS.stats || st->M_BL.stats || st->M_top.stats || st->M_bot.stats || st->M_AL.stats || st->M_FB.stats) return;
    for (int s = 0; s < 6; s++) check_field(st, 2*st->mu[mod->isrc], Q, QZ, s);
}
/*@cv cost=40 maxpaths=4000 tq=60 */
void H_kernel_dynamic(void)
{
    int n = cv_size("n", 3, 4, 5), i1 = 1 + cv_choose("i1", n - 2), i2 = 1 + cv_choose("i2", n - 1);
    cv_assume(i2 > i1);
    dyn_case(n, i1, i2, cv_choose("receiver_above_source", 2), 0, 0);
}
/*@cv cost=40 maxpaths=4000 tq=60 */
void H_kernel_dynamic_bounds(void)
{
    int top = cv_choose("top", 3), bot = cv_choose("bottom", 3);
    cv_assume(top + bot > 0);
    dyn_case(4, 1, 2, cv_choose("receiver_above_source", 2), top, bot);
}
/*@cv cost=20 maxpaths=4000 tq=60 */
void H_kernel_static(void)
{
    int n = cv_size("n", 3, 4, 5), i1 = 1 + cv_choose("i1", n - 2), i2 = 1 + cv_choose("i2", n - 1);
    cv_assume(i2 > i1);
    sta_case(n, i1, i2, cv_choose("receiver_above_source", 2), 0, 0);
}
/*@cv cost=20 maxpaths=4000 tq=60 */
void H_kernel_static_bounds(void)
{
    int top = cv_choose("top", 3), bot = cv_choose("bottom", 3);
    cv_assume(top + bot > 0);
    sta_case(4, 1, 2, cv_choose("receiver_above_source", 2), top, bot);
}
/* source and receiver at the surface of any kind */
/*@cv cost=20 maxpaths=4000 tq=60 */
void H_kernel_surface(void)
{
    int top = cv_choose("top", 3), st = cv_choose("static", 2), up = cv_choose("receiver_above_source", 2);
    SURF = 1;
    if (st) sta_case(4, 1, 2, up, top, 0); else dyn_case(4, 1, 2, up, top, 0);
    SURF = 0;
}
