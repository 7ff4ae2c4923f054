/* P06: integrands of the wavenumber integral = cylindrical harmonics expansion of the displacement field.
 * For azimuthal order m and kernels (q,w,v):  u_z = k w J_m(kr), u_r = k (q J_m'(kr) - m v J_m(kr)/(kr)), u_t = k (m q J_m(kr)/(kr) - v J_m'(kr)). */
#include "spec.h"
#include "grt/integral/k_integ.h"
#include "grt/integral/quadratic.h"
#include "grt/common/bessel.h"

static const int MORD[6] = {0, 0, 1, 0, 1, 2};   /* EX VF HF DD DS SS */
static void in_grid(cplxChnlGrid Q) { for (int i = 0; i < 6; i++) for (int c = 0; c < 3; c++) Q[i][c] = (MORD[i] == 0 && c == 2) ? 0 : cv_cplx("F", -1, 1); }
static void clr(cplxIntegGrid S) { for (int i = 0; i < 6; i++) for (int c = 0; c < 4; c++) S[i][c] = cv_cplx("stale", -1, 1); }
static void clc(cplxChnlGrid S) { for (int i = 0; i < 6; i++) for (int c = 0; c < 3; c++) S[i][c] = 0; }

void H_orders(void)
{   /* the tables the whole chain is indexed by */
    for (int i = 0; i < 6; i++) {
        cv_true("azimuthal order of each source", GRT_SRC_M_ORDERS[i] == MORD[i]);
        cv_true("Green's function derivative flag of each source", GRT_SRC_M_GTYPES[i] == ((i == 1 || i == 2) ? 0 : 1));
        cv_true("force flag of each source", !!GRT_SRC_M_INDEX_IS_FORCE(i) == (i == 1 || i == 2));
    }
    cv_true("kernel codes", GRT_QWV_CODES[0] == 'q' && GRT_QWV_CODES[1] == 'w' && GRT_QWV_CODES[2] == 'v');
    cv_true("ZRT codes", GRT_ZRT_CODES[0] == 'Z' && GRT_ZRT_CODES[1] == 'R' && GRT_ZRT_CODES[2] == 'T');
    cv_true("ZNE codes", GRT_ZNE_CODES[0] == 'Z' && GRT_ZNE_CODES[1] == 'N' && GRT_ZNE_CODES[2] == 'E');
}
/*@cv replace=grt_bessel012 */
void H_besselp(void)
{
    real_t x = cv_pos("x", 0.5, 5), a = cv_bessel(0, x), b = cv_bessel(1, x), c = cv_bessel(2, x);
    real_t d0 = cv_diffr(a, "x"), d1 = cv_diffr(b, "x"), d2 = cv_diffr(c, "x");
    cv_tol(1e-6, 1e-7);
    grt_besselp012(x, &a, &b, &c);
    cv_eq("J0'", a, d0); cv_eq("J1'", b, d1); cv_eq("J2'", c, d2);
}
void contract__grt_bessel012(real_t x, real_t *a, real_t *b, real_t *c) { *a = cv_bessel(0, x); *b = cv_bessel(1, x); *c = cv_bessel(2, x); }
void H_bessel(void)
{
    real_t x = cv_pos("x", 0.5, 5), a, b, c;
    grt_bessel012(x, &a, &b, &c);
    cv_eq("J0", a, cv_bessel(0, x)); cv_eq("J1", b, cv_bessel(1, x)); cv_eq("J2", c, cv_bessel(2, x));
}
static void spec_disp(int i, real_t k, real_t r, const cplxChnlGrid Q, cplx_t u[3])
{
    int m = MORD[i]; real_t x = k*r, J = cv_bessel(m, x), Jx = J/x;
    real_t Jp = m == 0 ? -cv_bessel(1, x) : cv_bessel(m-1, x) - m*Jx;
    u[0] = k*Q[i][1]*J;
    u[1] = k*(Q[i][0]*Jp - m*Q[i][2]*Jx);
    u[2] = m == 0 ? 0 : k*(m*Q[i][0]*Jx - Q[i][2]*Jp);
}
/* the four integrals per source recombine to the displacement components; order of stale content is irrelevant */
void H_int_Pk(void)
{
    real_t k = cv_pos("k", 0.5, 2), r = cv_pos("r", 0.5, 3); cv_assume_lt(1e-8, r);
    cplxChnlGrid Q, M; cplxIntegGrid S; in_grid(Q); clr(S); clc(M);
    grt_int_Pk(k, r, Q, false, S);
    grt_merge_Pk(S, M);
    for (int i = 0; i < 6; i++) {
        cplx_t u[3]; spec_disp(i, k, r, Q, u);
        cv_eq("vertical", M[i][0], u[0]); cv_eq("radial", M[i][1], u[1]); cv_eq("transverse", M[i][2], u[2]);
    }
}
/* near-field split: the near-field integral carries exactly the 1/r part */
void H_int_Pk_parts(void)
{
    real_t k = cv_pos("k", 0.5, 2), r = cv_pos("r", 0.5, 3); cv_assume_lt(1e-8, r);
    cplxChnlGrid Q; cplxIntegGrid S; in_grid(Q); clr(S);
    grt_int_Pk(k, r, Q, false, S);
    for (int i = 0; i < 6; i++) { int m = MORD[i]; if (m == 0) continue;
        cv_eq("near-field part", S[i][1], -m*(Q[i][0] + Q[i][2])*cv_bessel(m, k*r)/r);
        cv_eq("far radial part", S[i][0], k*Q[i][0]*cv_bessel(m-1, k*r));
        cv_eq("far transverse part", S[i][3], -k*Q[i][2]*cv_bessel(m-1, k*r));
    }
}
/* radial derivative integrand = derivative with respect to r of the displacement integrand */
void H_int_Pk_uir(void)
{
    real_t k = cv_pos("k", 0.5, 2), r = cv_pos("r", 0.5, 3); cv_assume_lt(1e-8, r);
    cplxChnlGrid Q, M; cplxIntegGrid S; in_grid(Q); clr(S); clc(M);
    grt_int_Pk(k, r, Q, true, S);
    grt_merge_Pk(S, M);
    cv_tol(1e-5, 1e-6);
    for (int i = 0; i < 6; i++) {
        cplx_t u[3]; spec_disp(i, k, r, Q, u);
        cv_eq("vertical, radial derivative", M[i][0], cv_diff(u[0], "r")); cv_eq("radial, radial derivative", M[i][1], cv_diff(u[1], "r"));
        cv_eq("transverse, radial derivative", M[i][2], MORD[i] ? cv_diff(u[2], "r") : 0);
    }
}
/* at (numerically) zero epicentral distance: the limits of the same expressions */
void H_int_Pk_r0(void)
{
    real_t k = cv_pos("k", 0.5, 2), r = cv_choose("exact zero", 2) ? 0 : cv_pos("r", 1e-10, 1e-9); cv_assume_le(r, 1e-8);
    int uir = cv_choose("uir", 2);
    cplxChnlGrid Q, M; cplxIntegGrid S; in_grid(Q); clr(S); clc(M);
    grt_int_Pk(k, r, Q, uir, S);
    grt_merge_Pk(S, M);
    for (int i = 0; i < 6; i++) { int m = MORD[i];
        cplx_t q = Q[i][0], w = Q[i][1], v = Q[i][2], z = 0, R = 0, T = 0;
        if (!uir) { if (m == 0) z = k*w; if (m == 1) { R = k*(q - v)/2; T = k*(q - v)/2; } }
        else { if (m == 0) R = -k*k*q/2; if (m == 1) z = k*k*w/2; if (m == 2) { R = k*k*(q - v)/4; T = k*k*(q - v)/4; } }
        cv_eq("vertical at zero distance", M[i][0], z); cv_eq("radial at zero distance", M[i][1], R); cv_eq("transverse at zero distance", M[i][2], T);
    }
}
/* large-distance (Filon) integrand: leading asymptotics of k J_m(kr) sqrt(pi r/2): sqrt(k) cos(kr - (2m+1) pi/4); near-field term dropped; second variant: the sine of the same phase */
static void asym(int m, real_t k, real_t r, int iscos, real_t *f, real_t *fr)
{   /* f = sqrt(k) C_m(kr), fr = leading part of its r-derivative = -sqrt(k) k S_m */
    real_t c0 = cos(k*r - QUARTERPI), s0 = sin(k*r - QUARTERPI), C[3] = {c0, s0, -c0}, Sn[3] = {s0, -c0, -s0};
    *f = sqrt(k)*(iscos ? C[m] : Sn[m]);
    *fr = sqrt(k)*k*(iscos ? -Sn[m] : C[m]);
}
void H_int_Pk_filon(void)
{
    real_t k = cv_pos("k", 0.5, 2), r = cv_pos("r", 0.5, 30); int iscos = cv_choose("cos", 2), uir = cv_choose("uir", 2);
    cplxChnlGrid Q, M; cplxIntegGrid S; in_grid(Q); clr(S); clc(M);
    grt_int_Pk_filon(k, r, iscos, Q, uir, S);
    grt_merge_Pk(S, M);
    for (int i = 0; i < 6; i++) { int m = MORD[i];
        real_t f, fr, g, gr; asym(m, k, r, iscos, &f, &fr);
        if (m == 0) { asym(1, k, r, iscos, &g, &gr); g = -g; gr = -gr; } else asym(m-1, k, r, iscos, &g, &gr);
        if (uir) { f = fr; g = gr; }
        cv_eq("vertical", M[i][0], Q[i][1]*f); cv_eq("radial", M[i][1], Q[i][0]*g); if (m) cv_eq("transverse", M[i][2], -Q[i][2]*g);
    }
}
/* ---- quadratic interpolation and its exact oscillatory integral */
void H_quadratic(void)
{
    real_t x[3]; cplx_t f[3], a, b, c; for (int i = 0; i < 3; i++) { x[i] = cv_real("x", -2, 2); f[i] = cv_cplx("f", -1, 1); }
    cv_assume_ne(x[0], x[1]); cv_assume_ne(x[1], x[2]); cv_assume_ne(x[0], x[2]);
    grt_quad_term(x, f, &a, &b, &c);
    for (int i = 0; i < 3; i++) cv_eq("parabola passes through the samples", grt_quad_eval(x[i], a, b, c), f[i]);
    real_t x1 = cv_real("x1", -2, 2), x2 = cv_real("x2", -2, 2);
    cv_tol(1e-5, 1e-6);
    cv_eq("antiderivative", cv_diff(grt_quad_integral(x1, x2, a, b, c), "x2"), a*x2*x2 + b*x2 + c);
    cv_eq("empty interval", grt_quad_integral(x1, x1, a, b, c), 0);
}
/* self-adaptive Filon panel = integral over [k1,k3] of (parabola through sqrt(k) F) x asymptotic Bessel factor.
 * spec_anti is the antiderivative of k^d (a k^2 + b k + c) cos(kr - (2m+1) pi/4) by repeated integration by parts (lemma H_spec_anti). */
static cplx_t spec_anti(cplx_t a, cplx_t b, cplx_t c, int d, int m, real_t r, real_t k)
{
    cplx_t P = a*k*k + b*k + c, P1 = 2*a*k + b, P2 = 2*a, P3 = 0;
    if (d) { P3 = 6*a; P2 = 6*a*k + 2*b; P1 = 3*a*k*k + 2*b*k + c; P = k*P; }
    real_t c0 = cos(k*r - QUARTERPI), s0 = sin(k*r - QUARTERPI), C[4] = {c0, s0, -c0, -s0}, Sn[4] = {s0, -c0, -s0, c0};
    return P*Sn[m]/r + P1*C[m]/(r*r) - P2*Sn[m]/(r*r*r) - P3*C[m]/(r*r*r*r);
}
void H_spec_anti(void)
{
    real_t k2 = cv_pos("k2", 1, 2), r = cv_pos("r", 1, 10); int m = cv_choose("m", 4), d = cv_choose("d", 2);
    cplx_t a = cv_cplx("a", -1, 1), b = cv_cplx("b", -1, 1), c = cv_cplx("c", -1, 1);
    real_t c0 = cos(k2*r - QUARTERPI), s0 = sin(k2*r - QUARTERPI), C[4] = {c0, s0, -c0, -s0};
    cplx_t p = a*k2*k2 + b*k2 + c;
    cv_tol(1e-5, 1e-6);
    cv_eq("lemma: antiderivative", cv_diff(spec_anti(a, b, c, d, m, r, k2), "k2"), (d ? k2*p : p)*C[m]);
}
void H_sa_filon(void)
{
    real_t k3[3], r = cv_pos("r", 1, 10); int uir = cv_choose("uir", 2);
    k3[0] = cv_pos("k1", 0.2, 0.5); k3[1] = cv_pos("k2", 0.6, 1); k3[2] = cv_pos("k3", 1.1, 2);
    cv_assume_lt(k3[0], k3[1]); cv_assume_lt(k3[1], k3[2]);
    cplxChnlGrid Q3[3], M; cplxIntegGrid S; for (int d = 0; d < 3; d++) in_grid(Q3[d]); clr(S); clc(M);
    grt_int_Pk_sa_filon(k3, r, Q3, uir, S);
    grt_merge_Pk(S, M);
    cv_tol(1e-7, 1e-9);
    for (int i = 0; i < 6; i++) { int m = MORD[i];
        cplx_t E[3];
        for (int ch = 0; ch < 3; ch++) {
            cplx_t f[3], a, b, c; for (int d = 0; d < 3; d++) f[d] = Q3[d][i][ch]*sqrt(k3[d]);
            grt_quad_term(k3, f, &a, &b, &c);
            int ord = ch == 1 ? m : (m == 0 ? 1 : m-1); int sg = (ch == 2 || (ch == 0 && m == 0)) ? -1 : 1;
            if (uir) { ord += 1; sg = -sg; }     /* d/dr cos(kr - phi) = -k sin(kr - phi) = k cos(kr - phi + pi/2) = -k C_{m+1} */
            E[ch] = sg*(spec_anti(a, b, c, uir, ord, r, k3[2]) - spec_anti(a, b, c, uir, ord, r, k3[0]));
        }
        cv_eq("vertical", M[i][0], E[1]); cv_eq("radial", M[i][1], E[0]); if (m) cv_eq("transverse", M[i][2], E[2]);
    }
}
/* accumulators */
void H_k_integ_copy(void)
{
    int up = cv_choose("derivatives", 2), nr = cv_size("nr", 1, 2, 3);
    K_INTEG *K = grt_init_K_INTEG(up, nr);
    for (int ir = 0; ir < nr; ir++) for (int i = 0; i < 6; i++) for (int v = 0; v < 4; v++) {
        cv_eq("sums start at zero", K->sumJ[ir][i][v], 0);
        if (up) { cv_eq("z sums start at zero", K->sumJz[ir][i][v], 0); cv_eq("r sums start at zero", K->sumJr[ir][i][v], 0); K->sumJz[ir][i][v] = cv_cplx("sz", -1, 1); K->sumJr[ir][i][v] = cv_cplx("sr", -1, 1); }
        K->sumJ[ir][i][v] = cv_cplx("s", -1, 1);
    }
    K->kmax = cv_pos("kmax", 1, 2); K->applyDCM = cv_choose("dcm", 2);
    K_INTEG *L = grt_copy_K_INTEG(K);
    cv_true("copy is deep", L->sumJ != K->sumJ && (!up || (L->sumJz != K->sumJz && L->sumJr != K->sumJr && L->sumJz != L->sumJr)));
    cv_true("copied flags", L->nr == K->nr && L->calc_upar == K->calc_upar && L->applyDCM == K->applyDCM); cv_eq("copied kmax", L->kmax, K->kmax);
    for (int ir = 0; ir < nr; ir++) for (int i = 0; i < 6; i++) for (int v = 0; v < 4; v++) {
        cv_eq("copied sum", L->sumJ[ir][i][v], K->sumJ[ir][i][v]);
        if (up) { cv_eq("copied z sum", L->sumJz[ir][i][v], K->sumJz[ir][i][v]); cv_eq("copied r sum", L->sumJr[ir][i][v], K->sumJr[ir][i][v]); }
    }
    grt_free_K_INTEG(L); grt_free_K_INTEG(K);
}
