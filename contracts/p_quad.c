/* P07: wavenumber integration: discrete sum, Filon panels, direct-convergence subtraction, peak-trough averaging.
 * The kernel is an arbitrary (uninterpreted) function of the wavenumber. */
#include "spec.h"
#include "grt/integral/k_integ.h"
#include "grt/integral/quadratic.h"
#include "grt/integral/integ_process.h"
#include "grt/integral/dwm.h"
#include "grt/integral/fim.h"
#include "grt/integral/safim.h"
#include "grt/integral/dcm.h"
#include "grt/integral/ptam.h"

static const int MORD[6] = {0, 0, 1, 0, 1, 2};
#define FORCE(i) ((i) == 1 || (i) == 2)
#define USED(i, v) (MORD[i] || (v) == 0 || (v) == 2)
static const char *NM[6][3] = {{"F00","F01","F02"},{"F10","F11","F12"},{"F20","F21","F22"},{"F30","F31","F32"},{"F40","F41","F42"},{"F50","F51","F52"}};
static const char *NZ[6][3] = {{"Z00","Z01","Z02"},{"Z10","Z11","Z12"},{"Z20","Z21","Z22"},{"Z30","Z31","Z32"},{"Z40","Z41","Z42"},{"Z50","Z51","Z52"}};
static void ker(MODEL1D_STATE *st, const real_t k, cplxChnlGrid Q, bool up, cplxChnlGrid Qz)
{
    (void)st;
    for (int i = 0; i < 6; i++) for (int c = 0; c < 3; c++) {
        int z = MORD[i] == 0 && c == 2;
        Q[i][c] = z ? 0 : cv_uf(NM[i][c], k);
        if (up) Qz[i][c] = z ? 0 : cv_uf(NZ[i][c], k);
    }
}
static MODEL1D_STATE *mk(void)
{
    MODEL1D *m = grt_init_mod1d(3); m->depsrc = 2; m->deprcv = 1; m->isrc = 2; m->ircv = 1; m->ircvup = true;
    MODEL1D_STATE *st = grt_init_mod1d_state(m); st->omega = cv_pos("omega", 1, 3); st->stats = 0; return st;
}
/* kernel minus its asymptote beyond the largest wavenumber: forces behave like 1/k (z-derivative: constant), couples like a constant (z-derivative: k) */
static void resid(real_t k, real_t kmax, int dcm, int up, cplxChnlGrid Q, cplxChnlGrid Qz)
{
    cplxChnlGrid A, B; ker(NULL, k, Q, up, Qz);
    if (!dcm) return;
    ker(NULL, kmax, A, up, B);
    for (int i = 0; i < 6; i++) for (int c = 0; c < 3; c++) {
        Q[i][c] -= A[i][c]*(FORCE(i) ? kmax/k : 1);
        if (up) Qz[i][c] -= B[i][c]*(FORCE(i) ? 1 : k/kmax);
    }
}
static void acc(cplxIntegGrid S, const cplxIntegGrid T, real_t f) { for (int i = 0; i < 6; i++) for (int v = 0; v < 4; v++) S[i][v] += USED(i, v) ? T[i][v]*f : 0; }
static void zero(cplxIntegGrid S) { for (int i = 0; i < 6; i++) for (int v = 0; v < 4; v++) S[i][v] = 0; }
static void same(const char *nm, const cplxIntegGrid A, const cplxIntegGrid B) { for (int i = 0; i < 6; i++) for (int v = 0; v < 4; v++) if (USED(i, v)) cv_eq(nm, A[i][v], B[i][v]); }

/* discrete sum over k = dk, 2dk, ..., N dk (last one at or beyond kmax - dk) */
static void spec_sum(real_t dk, int N, real_t r, real_t kmax, int dcm, int up, cplxIntegGrid S, cplxIntegGrid Sz, cplxIntegGrid Sr)
{
    zero(S); zero(Sz); zero(Sr);
    for (int j = 1; j <= N; j++) {
        cplxChnlGrid Q, Qz; cplxIntegGrid T; resid(j*dk, kmax, dcm && r > 0, up, Q, Qz);
        zero(T); grt_int_Pk(j*dk, r, Q, false, T); acc(S, T, 1);
        if (up) { zero(T); grt_int_Pk(j*dk, r, Qz, false, T); acc(Sz, T, 1); zero(T); grt_int_Pk(j*dk, r, Q, true, T); acc(Sr, T, 1); }
    }
}
/*@cv cost=10 */
void H_discrete(void)
{
    int N = cv_size("N", 1, 2, 4), dcm = cv_choose("dcm", 2), up = cv_choose("derivatives", 2), r0 = cv_choose("zero distance", 2);
    real_t dk = cv_pos("dk", 0.1, 0.3), rs[2]; rs[0] = cv_pos("r", 1, 5); cv_assume_lt(1e-8, rs[0]); rs[1] = r0 ? 0 : cv_pos("r2", 1, 5); if (!r0) cv_assume_lt(1e-8, rs[1]);
    real_t kmax = (N - 0.5)*dk;
    MODEL1D_STATE *st = mk();
    K_INTEG *K = grt_init_K_INTEG(up, 2); K->applyDCM = dcm; K->kmax = kmax;
    if (dcm) ker(st, kmax, K->QWV_kmax, up, K->QWVz_kmax);
    real_t ke = grt_discrete_integ(st, dk, kmax, 0.0, 2, rs, K, NULL, ker);
    cv_eq("last wavenumber", ke, N*dk);
    for (int ir = 0; ir < 2; ir++) {
        cplxIntegGrid S, Sz, Sr; spec_sum(dk, N, rs[ir], kmax, dcm, up, S, Sz, Sr);
        same("displacement sum", K->sumJ[ir], S);
        if (up) { same("z-derivative sum", K->sumJz[ir], Sz); same("r-derivative sum", K->sumJr[ir], Sr); }
    }
}
void H_discrete_nothing(void)
{
    MODEL1D_STATE *st = mk(); real_t rs[1]; rs[0] = cv_pos("r", 1, 5);
    K_INTEG *K = grt_init_K_INTEG(true, 1);
    cv_eq("no wavenumber", grt_discrete_integ(st, cv_pos("dk", 0.1, 0.3), 0.0, 0.0, 1, rs, K, NULL, ker), 0);
    cplxIntegGrid Zr; zero(Zr); same("no contribution", K->sumJ[0], Zr); same("no contribution", K->sumJz[0], Zr);
}
/* coincident source and receiver: singular, no contribution accumulated */
void H_discrete_singular(void)
{
    MODEL1D_STATE *st = mk(); st->mod1d->deprcv = st->mod1d->depsrc; real_t rs[2], dk = cv_pos("dk", 0.1, 0.3); rs[0] = 0; rs[1] = cv_pos("r", 1, 5); cv_assume_lt(1e-8, rs[1]);
    K_INTEG *K = grt_init_K_INTEG(false, 2);
    grt_discrete_integ(st, dk, 1.5*dk, 0.0, 2, rs, K, NULL, ker);
    cplxIntegGrid S, Sz, Sr; zero(S); same("no contribution at the singular point", K->sumJ[0], S);
    spec_sum(dk, 2, rs[1], 1.5*dk, 0, 0, S, Sz, Sr); same("other distances unaffected", K->sumJ[1], S);
}
/* integrals over [0,inf) of the subtracted asymptote: W(m,p) = int_0^inf J_m(x) x^p dx (Abel) = 2^p Gamma((1+m+p)/2)/Gamma((1+m-p)/2), p = -1..2 */
static real_t W(int m, int p)
{
    static const real_t t[3][4] = {{0, 1, 0, -1}, {1, 1, 1, 0}, {0.5, 1, 2, 3}};
    return t[m][p+1];
}
/* sums of the asymptotic part over all wavenumbers j dk, j >= 1 : (1/dk) (integral - dk/2 * integrand(0)) */
static void spec_tail(int i, real_t r, real_t dk, real_t kmax, cplx_t q, cplx_t w, cplx_t v, int zder, cplx_t T[4])
{
    int m = MORD[i]; int p = FORCE(i) ? (zder ? 1 : 0) : (zder ? 2 : 1); real_t scale = FORCE(i) ? (zder ? 1 : kmax) : (zder ? 1/kmax : 1);
    real_t rp = 1; for (int j = 0; j <= p; j++) rp /= r;                /* int J_m(kr) k^p dk = W r^-(p+1) */
    int mr = m == 0 ? 1 : m-1;
    real_t If = W(mr, p)*rp, Iz = W(m, p)*rp, In = W(m, p-1)*rp;          /* near: 1/r int J_m k^(p-1) dk */
    if (p == 0) { if (mr == 0) If -= dk/2; if (m == 0) Iz -= dk/2; if (m == 1) In -= dk/4; }
    T[0] = (m == 0 ? -1 : 1)*q*If*scale/dk; T[1] = m ? -m*(q + v)*In*scale/dk : 0; T[2] = w*Iz*scale/dk; T[3] = m ? -v*If*scale/dk : 0;
}
void H_dcm_correction(void)
{
    int up = cv_choose("derivatives", 2), near = cv_choose("near field", 2);
    real_t r = cv_pos("r", 1, 5), dk = cv_pos("dk", 0.01, 0.1), kmax = cv_pos("kmax", 3, 6), rs[2]; cv_assume_lt(1e-8, r); rs[0] = r; rs[1] = 0;
    K_INTEG *K = grt_init_K_INTEG(up, 2); K->applyDCM = true; K->kmax = kmax; ker(NULL, kmax, K->QWV_kmax, up, K->QWVz_kmax);
    cplxIntegGrid B; for (int i = 0; i < 6; i++) for (int v = 0; v < 4; v++) { B[i][v] = USED(i, v) ? cv_cplx("s", -1, 1) : 0; K->sumJ[0][i][v] = K->sumJ[1][i][v] = B[i][v]; if (up) K->sumJz[0][i][v] = K->sumJr[0][i][v] = K->sumJz[1][i][v] = K->sumJr[1][i][v] = B[i][v]; }
    grt_dcm_correction(2, rs, dk, kmax, K, near);
    cv_tol(1e-5, 1e-6);
    for (int i = 0; i < 6; i++) {
        cplx_t T[4], Tz[4];
        spec_tail(i, r, dk, kmax, K->QWV_kmax[i][0], K->QWV_kmax[i][1], K->QWV_kmax[i][2], 0, T);
        if (up) spec_tail(i, r, dk, kmax, K->QWVz_kmax[i][0], K->QWVz_kmax[i][1], K->QWVz_kmax[i][2], 1, Tz);
        for (int v = 0; v < 4; v++) if (USED(i, v)) {
            int on = v != 1 || near;
            cv_eq("added back = integral of the subtracted asymptote", K->sumJ[0][i][v] - B[i][v], on ? T[v] : 0);
            if (up) {
                cv_eq("added back, z derivative", K->sumJz[0][i][v] - B[i][v], on ? Tz[v] : 0);
                cv_eq("added back, r derivative", K->sumJr[0][i][v] - B[i][v], on ? cv_diff(T[v], "r") : 0);
            }
            cv_eq("zero distance untouched", K->sumJ[1][i][v], B[i][v]);
        }
    }
}
void H_dcm_revision(void)
{
    int up = cv_choose("derivatives", 2); real_t k = cv_pos("k", 0.5, 2), kmax = cv_pos("kmax", 3, 6);
    cplxChnlGrid Q, Qz, A, Az, R, Rz; ker(NULL, k, Q, 1, Qz); ker(NULL, kmax, A, 1, Az); resid(k, kmax, 1, 1, R, Rz);
    grt_int_dcm_revision(kmax, k, Q, A, up, Qz, Az);
    cplxChnlGrid Q0, Qz0; ker(NULL, k, Q0, 1, Qz0);
    for (int i = 0; i < 6; i++) for (int c = 0; c < 3; c++) { cv_eq("asymptote removed", Q[i][c], R[i][c]); cv_eq("asymptote removed, z derivative", Qz[i][c], up ? Rz[i][c] : Qz0[i][c]); }
}
/* ---- Filon with linear interpolation: exact integral of (piecewise-linear interpolant of sqrt(k) F) x asymptotic Bessel factor */
static cplx_t anti(cplx_t b, cplx_t c, int m, int d, real_t r, real_t k)
{   /* antiderivative of k^0 (b k + c) cos(kr - (2m+1)pi/4 + d pi/2) */
    real_t c0 = cos(k*r - QUARTERPI), s0 = sin(k*r - QUARTERPI), C[4] = {c0, s0, -c0, -s0}, S[4] = {s0, -c0, -s0, c0};
    (void)d;
    return (b*k + c)*S[m]/r + b*C[m]/(r*r);
}
void H_anti(void)
{
    real_t k = cv_pos("k", 0.5, 2), r = cv_pos("r", 1, 10); int m = cv_choose("m", 4); cplx_t b = cv_cplx("b", -1, 1), c = cv_cplx("c", -1, 1);
    real_t c0 = cos(k*r - QUARTERPI), s0 = sin(k*r - QUARTERPI), C[4] = {c0, s0, -c0, -s0};
    cv_tol(1e-6, 1e-7);
    cv_eq("lemma: antiderivative", cv_diff(anti(b, c, m, 0, r, k), "k"), (b*k + c)*C[m]);
}
static void spec_panels(real_t k0, real_t dk, int N, real_t r, real_t kmax, int dcm, int which, cplxIntegGrid S)
{   /* which: 0 u, 1 dz, 2 dr ; samples k0+dk .. k0+N dk */
    zero(S);
    for (int j = 1; j < N; j++) {
        real_t k1 = k0 + j*dk, k2 = k0 + (j+1)*dk; cplxChnlGrid A[2], B[2]; resid(k1, kmax, dcm, 1, A[0], B[0]); resid(k2, kmax, dcm, 1, A[1], B[1]);
        for (int i = 0; i < 6; i++) { int m = MORD[i];
            for (int c = 0; c < 3; c++) {
                if (c == 2 && m == 0) continue;
                cplx_t f1 = (which == 1 ? B[0] : A[0])[i][c]*sqrt(k1), f2 = (which == 1 ? B[1] : A[1])[i][c]*sqrt(k2);
                int ord = c == 1 ? m : (m == 0 ? 1 : m-1), sg = (c == 2 || (c == 0 && m == 0)) ? -1 : 1, v = c == 0 ? 0 : c == 1 ? 2 : 3;
                if (which == 2) { f1 *= k1; f2 *= k2; ord++; sg = -sg; }
                cplx_t b = (f2 - f1)/(k2 - k1), a = f1 - b*k1;
                S[i][v] += sg*(anti(b, a, ord, 0, r, k2) - anti(b, a, ord, 0, r, k1));
            }
        }
    }
}
/*@cv cost=30 */
void H_filon(void)
{
    int N = cv_size("N", 2, 2, 4), dcm = cv_choose("dcm", 2), up = cv_choose("derivatives", 2);
    real_t dk = cv_pos("dk", 0.1, 0.3), dk0 = cv_pos("dk0", 0.1, 0.3), k0 = cv_pos("k0", 1, 2), rs[2]; rs[0] = cv_pos("r", 1, 5); cv_assume_lt(1e-8, rs[0]); rs[1] = 2*rs[0];
    real_t kmax = k0 + (N - 0.5)*dk; cv_assume_lt(k0 + dk0, kmax);
    MODEL1D_STATE *st = mk();
    K_INTEG *K = grt_init_K_INTEG(up, 2); K->applyDCM = dcm; K->kmax = kmax; if (dcm) ker(st, kmax, K->QWV_kmax, up, K->QWVz_kmax);
    cplx_t base = cv_cplx("base", -1, 1); for (int ir = 0; ir < 2; ir++) for (int i = 0; i < 6; i++) for (int v = 0; v < 4; v++) K->sumJ[ir][i][v] = base;
    real_t ke = grt_linear_filon_integ(st, k0, dk0, dk, kmax, 0.0, 2, rs, K, NULL, ker);
    cv_eq("last wavenumber", ke, k0 + N*dk);
    cv_tol(1e-6, 1e-8);
    for (int ir = 0; ir < 2; ir++) {
        cplxIntegGrid S; real_t r = rs[ir]; int on = ir == 0 || r != 0; real_t fac = on ? sqrt(2/(PI*r))/dk0 : 0;
        for (int w = 0; w < (up ? 3 : 1); w++) {
            if (on) spec_panels(k0, dk, N, r, kmax, dcm, w, S); else zero(S);
            cplxIntegGrid *R = w == 0 ? &K->sumJ[ir] : w == 1 ? &K->sumJz[ir] : &K->sumJr[ir];
            for (int i = 0; i < 6; i++) for (int v = 0; v < 4; v++) if (USED(i, v)) cv_eq("exact integral of the interpolant", (*R)[i][v], (w == 0 ? base : 0) + S[i][v]*fac);
        }
    }
}
void H_filon_empty(void)
{
    MODEL1D_STATE *st = mk(); real_t rs[1], k0 = cv_pos("k0", 1, 2), dk0 = cv_pos("dk0", 0.1, 0.2), kmax = cv_pos("kmax", 0.5, 1); rs[0] = 2; cv_assume_le(kmax, k0 + dk0);
    K_INTEG *K = grt_init_K_INTEG(false, 1); int sa = cv_choose("adaptive", 2);
    real_t ke = sa ? grt_sa_filon_integ(st, k0, dk0, 0.01, kmax, 0.0, 1, rs, K, NULL, ker) : grt_linear_filon_integ(st, k0, dk0, 0.1, kmax, 0.0, 1, rs, K, NULL, ker);
    cv_eq("nothing beyond the limit", ke, k0); cplxIntegGrid Z; zero(Z); same("no contribution", K->sumJ[0], Z);
}
/* ---- whole integration with direct convergence: everything subtracted is added back with the same scale, with and without the Filon continuation */
/*@cv cost=30 */
void H_integral_dcm(void)
{
    int filon = cv_choose("filon", 2), up = cv_choose("derivatives", 2), dcm = cv_choose("dcm", 2);
    real_t dk = cv_pos("dk", 0.1, 0.3), fdk = cv_pos("fdk", 0.1, 0.3), r[1]; r[0] = cv_pos("r", 1, 5); cv_assume_lt(1e-8, r[0]);
    MODEL1D_STATE *st = mk(); K_INTEG_PROCESS P; memset(&P, 0, sizeof(P));
    P.dk = dk; P.keps = 0; P.cvgmet = dcm ? K_INTEG_CONVERG_DCM : 0;
    int N = 2; real_t kcut = 1.5*dk; P.kmax = kcut;
    if (filon) { P.applyFIM = true; P.filondk = fdk; P.kcut = kcut; P.kmax = 2*dk + 1.5*fdk; cv_assume_lt(3*dk, P.kmax); }
    if (!dcm) cv_assume(K_INTEG_CONVERG_DCM != 0);
    K_INTEG *K = grt_wavenumber_integral(st, 1, r, &P, up, ker);
    cplxIntegGrid S, Sz, Sr, X; spec_sum(dk, N, r[0], P.kmax, dcm, up, S, Sz, Sr);
    cplxChnlGrid A, B; ker(NULL, P.kmax, A, 1, B);
    for (int w = 0; w < (up ? 3 : 1); w++) {
        if (filon) spec_panels(2*dk, fdk, 2, r[0], P.kmax, dcm, w, X);
        cplxIntegGrid *R = w == 0 ? &K->sumJ[0] : w == 1 ? &K->sumJz[0] : &K->sumJr[0], *E = w == 0 ? &S : w == 1 ? &Sz : &Sr;
        cv_tol(1e-5, 1e-6);
        for (int i = 0; i < 6; i++) {
            cplx_t T[4] = {0, 0, 0, 0}; if (dcm) spec_tail(i, r[0], dk, P.kmax, w == 1 ? B[i][0] : A[i][0], w == 1 ? B[i][1] : A[i][1], w == 1 ? B[i][2] : A[i][2], w == 1, T);
            for (int v = 0; v < 4; v++) if (USED(i, v)) {
                if (v == 1 && filon) continue;          /* the near-field integral is truncated in the Filon scheme */
                cplx_t t = w == 2 ? cv_diff(T[v], "r") : T[v];
                if (!dcm) t = 0;
                cv_eq("integral = sum + continuation + analytic remainder", (*R)[i][v], (*E)[i][v] + (filon ? X[i][v]*sqrt(2/(PI*r[0]))/dk : 0) + t);
            }
        }
    }
}
/* ---- adaptive Filon: the accepted panels partition [k0+dk0, kmax], each integrated with the kernel samples at its own three wavenumbers.
 * Bounded: interval length such that at most one bisection is possible (minimum sampling interval), power-law kernels. */
static int g_n; static real_t g_A;
static void ker1(MODEL1D_STATE *st, const real_t k, cplxChnlGrid Q, bool up, cplxChnlGrid Qz)
{
    (void)st; g_n++;
    for (int i = 0; i < 6; i++) for (int c = 0; c < 3; c++) { Q[i][c] = g_A*(1 + i + 0.25*c)*(k*k*k + c*k*k); if (up) Qz[i][c] = g_A*(2 + i + 0.25*c)*k*k*k*k; }
}
static void panel(real_t a, real_t b, real_t r, int which, cplxIntegGrid S)
{
    real_t k3[3]; k3[0] = a; k3[1] = (a + b)/2; k3[2] = b; cplxChnlGrid Q[3], Qz[3]; cplxIntegGrid T; zero(T);
    for (int d = 0; d < 3; d++) ker1(NULL, k3[d], Q[d], 1, Qz[d]);
    grt_int_Pk_sa_filon(k3, r, which == 1 ? Qz : Q, which == 2, T); acc(S, T, 1);
}
/*@cv cost=10 */
void H_sa_filon_partition(void)
{
    int up = cv_choose("derivatives", 2);
    g_A = 1.5;
    real_t tol = cv_choose("accuracy", 2) ? 1e-30 : 0.1, kmax = 1.0 + 3e-7, rs[2]; rs[0] = cv_pos("r", 1, 5); cv_assume_lt(1e-8, rs[0]); rs[1] = 2*rs[0];
    MODEL1D_STATE *st = mk(); K_INTEG *K = grt_init_K_INTEG(up, 2); K->kmax = kmax;
    g_n = 0;
    real_t ke = grt_sa_filon_integ(st, 0.5, 0.5, tol, kmax, 0.0, 2, rs, K, NULL, ker1);
    int n = g_n; cv_eq("last wavenumber", ke, kmax);
    cv_true("one or two panels", n == (tol < 1e-3 ? 9 : 5));
    for (int ir = 0; ir < 2; ir++) for (int w = 0; w < (up ? 3 : 1); w++) {
        cplxIntegGrid S; zero(S); real_t mid = (1.0 + kmax)/2, f = sqrt(2/(PI*rs[ir]))/0.5;
        if (n == 5) panel(1.0, kmax, rs[ir], w, S); else { panel(1.0, mid, rs[ir], w, S); panel(mid, kmax, rs[ir], w, S); }
        cplxIntegGrid *R = w == 0 ? &K->sumJ[ir] : w == 1 ? &K->sumJz[ir] : &K->sumJr[ir];
        for (int i = 0; i < 6; i++) for (int v = 0; v < 4; v++) if (USED(i, v)) cv_eq("sum of the panel integrals", (*R)[i][v], S[i][v]*f);
    }
}
/* ---- peak-trough averaging: partial sums oscillating evenly about a value converge to it, and partial sums that have converged stay.
 * Bounded: this family of sequences (amplitude, base value arbitrary). */
static real_t g_r, g_amp; static int g_j; static const void *g_Q;
#define ALT() ((g_j % 4 == 1 || g_j % 4 == 2) ? g_amp : -g_amp)
static void ker_alt(MODEL1D_STATE *st, const real_t k, cplxChnlGrid Q, bool up, cplxChnlGrid Qz)
{
    (void)st; g_j++; g_Q = Q;
    for (int i = 0; i < 6; i++) for (int c = 0; c < 3; c++) {
        Q[i][c] = c == 1 && i == 1 ? ALT()/(k*cv_bessel(MORD[i], k*g_r)) : 0; if (up) Qz[i][c] = 0;
    }
}
void contract__grt_int_Pk(real_t k, real_t r, const cplxChnlGrid QWV, bool calc_uir, cplxIntegGrid SUM)
{
    (void)k; (void)r;
    for (int i = 0; i < 6; i++) for (int v = 0; v < 4; v++) SUM[i][v] = i == 1 && v == 2 && !calc_uir && (const void *)QWV == g_Q ? ALT() : 0;
}
/*@cv cost=40 replace=grt_int_Pk */
void H_ptam(void)
{
    int up = cv_choose("derivatives", 2); real_t rs[2]; g_r = rs[1] = 2.0; rs[0] = 0; g_amp = cv_pos("amplitude", 0.5, 1); g_j = 0;
    MODEL1D_STATE *st = mk(); K_INTEG *K = grt_init_K_INTEG(up, 2); cplx_t b = cv_cplx("base", -1, 1), bz = cv_cplx("base_z", -1, 1);
    for (int ir = 0; ir < 2; ir++) for (int i = 0; i < 6; i++) for (int v = 0; v < 4; v++) { K->sumJ[ir][i][v] = b; if (up) K->sumJz[ir][i][v] = bz; }
    grt_PTA_method(st, 1.0, 0.25, 2, rs, K, NULL, ker_alt);
    for (int i = 0; i < 6; i++) for (int v = 0; v < 4; v++) if (USED(i, v)) {
        cv_eq("mean of the oscillating partial sums, or the constant", K->sumJ[1][i][v], i == 1 && v == 2 ? b + g_amp : b);
        if (up) cv_eq("z derivative", K->sumJz[1][i][v], bz);
        cv_eq("zero distance keeps its sum", K->sumJ[0][i][v], b);
    }
}
