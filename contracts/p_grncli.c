/* P17: the greenfn command: options -> integration parameters, spectra -> seismograms.  The spectra (p_grnspec.c) and travel
 * times (P19) enter by contract.  Specification: inverse Fourier integral of the stored spectra along the complex frequencies. */
/*@cvfile wrap=grt_integ_grn_spec,grt_compute_travt1d */
#include "cv.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <tgmath.h>
#include "grt/common/const.h"
#include "grt/common/model.h"
#include "grt/common/sacio.h"
#include "grt/dynamic/grn.h"
#include "grt/dynamic/grnspec.h"
#include "grt/integral/integ_process.h"
int greenfn_main(int argc, char **argv);
#define NR 2
#define NF 4
static const char *SRC[6] = {"EX", "VF", "HF", "DD", "DS", "SS"}; static const char CH[] = "ZRT", DER[] = " zr";
static char opt[24][160]; static int nopt;
static char *arg(void) { return opt[nopt++]; }
static void run(void) { char *av[28]; int n = 0; av[n++] = "greenfn"; for (int i = 0; i < nopt; i++) av[n++] = opt[i]; av[n] = 0; cv_getopt_reset(); cv_true("success", greenfn_main(n, av) == 0); }
/* ---- contracts */
static int ncall, nr, want; static real_t zs, zr, rr[NR], tt[2][NR]; static K_INTEG_PROCESS K; static GRNSPEC g0; static cplx_t U[3][NR][6][3][NF]; static MODEL1D m0; static int liq_src, multi; static cplx_t V0[4][6]; static const real_t MS[2] = {1, 8}, MR[2] = {4, 5.5};
real_t contract__grt_compute_travt1d(const real_t *Thk, const real_t *V, const size_t n, const size_t isrc, const size_t ircv, const real_t d)
{
    int k = -1; for (int i = 0; i < nr; i++) if (d == rr[i]) k = i;
    cv_true("travel time: model and distance", k >= 0 && isrc != ircv && isrc < n && ircv < n); if (k < 0) return 0;
    real_t z = 0, a = 0, b = 0; for (size_t i = 0; i < n; i++) { if (i == isrc) a = z; if (i == ircv) b = z; z += Thk[i]; }
    cv_eq("travel time: source depth", a, zs); cv_eq("travel time: receiver depth", b, zr);
    int p = V[isrc] == (liq_src ? 5 : 6); if (!p) cv_true("travel time: velocities", V[isrc] == 3.5 || (V[isrc] == 0 && liq_src)); return tt[!p][k];
}
void contract__grt_integ_grn_spec(MODEL1D *m, K_INTEG_PROCESS *Kp, GRNSPEC *g, const bool print)
{
    if (multi) { zs = MS[ncall/2 & 1]; zr = MR[ncall & 1]; liq_src = ncall < 2; }
    cv_true("silent", !print); cv_true("spectra: depths", m->depsrc == zs && m->deprcv == zr); cv_true("no process files", g->statsstr == NULL);
    K = *Kp; g0 = *g; m0 = *m; if (multi && ncall < 4) for (int s = 0; s < 6; s++) g->u[0][s][0][0] = V0[ncall][s] = cv_cplx("spectrum", -2, 2);
    ncall++;
    for (size_t q = 0; g->nf > 1 && q < g->nf; q++) cv_eq("frequencies", g->freqs[q], q*g->freqs[1]);
    for (int k = 0; want && k < (g->calc_upar ? 3 : 1); k++) for (int i = 0; i < nr; i++) for (int s = 0; s < 6; s++) for (int c = 0; c < 3; c++) for (size_t q = 0; q < g->nf; q++) {
        if (c == 2 && (s == 0 || s == 1 || s == 3)) continue;
        U[k][i][s][c][q] = want == 1 || (s + c) % 3 == 0 ? cv_cplx("spectrum", -2, 2) : 0.5*s + 0.25*k - 0.125*c + I*(0.75*(int)q + i); if (want == 3 && q + 1 == g->nf) U[k][i][s][c][q] = 0;
        (k == 0 ? g->u : k == 1 ? g->uiz : g->uir)[i][s][c][q] = U[k][i][s][c][q];
    }
}
static void model(const char *name, real_t top, int liquid)
{
    FILE *f = fopen(name, "w"); fprintf(f, "%s 5 %s 2.5 100 50\n0 6 3.5 2.75 200 150\n", "3", liquid ? "0" : "3"); fclose(f); (void)top;
}
static void setup(void) { cv_fs(); cv_tol(1e-3, 1e-3); nopt = ncall = 0; want = 0; liq_src = multi = 0; strcpy(arg(), "-s"); strcpy(arg(), "-Oout"); }
/* ---- seismograms */
static void body(int nt, int up)
{
    setup(); model("m", 0, 0); real_t dt = 0.5, wI, b[NR], fac, t0; char p[128]; int der = cv_choose("derivatives", 2), skip = cv_choose("no_compensation", 2), e = cv_choose("begin", 3);
    nr = der ? 1 : 2; rr[0] = 3; rr[1] = 7.5; zs = 8; zr = 4; for (int i = 0; i < nr; i++) { tt[0][i] = cv_pos("tp", 1, 3); tt[1][i] = cv_pos("ts", 3, 5); }
    strcpy(arg(), "-L20"); strcpy(arg(), "-Mm"); strcpy(arg(), "-D8/4"); strcpy(arg(), der ? "-R3" : "-R3,7.5"); sprintf(arg(), up > 1 ? "-N%d/0.5+w0.5+n%d%s" : "-N%d/0.5+w0.5%.0d%s", nt, up > 1 ? up : 0, skip ? "+f" : "");
    want = up > 1 && nt % 2 == 0 ? 3 : 2; if (der) strcpy(arg(), "-e"); t0 = e == 0 ? 0 : cv_real("t0", -2, 0);
    if (e == 1) { sprintf(arg(), "-E%.17g/4", t0); for (int i = 0; i < nr; i++) b[i] = t0 + hypot(rr[i], zs - zr)/4; }
    else if (e == 2) { cv_assume_lt(t0, 0); sprintf(arg(), "-Ep%.17g", t0); for (int i = 0; i < nr; i++) b[i] = t0 + tt[0][i]; }
    else b[0] = b[1] = 0;
    run(); wI = 0.5*PI/(nt*dt); cv_eq("imaginary frequency", g0.wI, wI); cv_true("one computation", ncall == 1); cv_true("derivatives requested", g0.calc_upar == der);
    int N = nt*up; real_t df = 1/(nt*dt), h = dt/up;
    for (int k = 0; k < (der ? 3 : 1); k++) for (int i = 0; i < nr; i++) for (int s = 0; s < 6; s++) for (int c = 0; c < 3; c++) {
        sprintf(p, "out/m_8_4_%s/%s%s%c.sac", i ? "7.5" : "3", k == 0 ? "" : k == 1 ? "z" : "r", SRC[s], CH[c]);
        if (c == 2 && (s == 0 || s == 1 || s == 3)) { cv_true("no file for an absent component", fopen(p, "r") == NULL); continue; }
        SACTRACE *t = grt_read_SACTRACE(p, false); cv_true("number of samples", t->hd.npts == N); cv_eq("sampling interval", t->hd.delta, h); cv_eq("begin time", t->hd.b, b[i]);
        cv_true("component name", k ? t->hd.kcmpnm[0] == DER[k] && t->hd.kcmpnm[1] == SRC[s][0] && t->hd.kcmpnm[3] == CH[c] : t->hd.kcmpnm[0] == SRC[s][0] && t->hd.kcmpnm[1] == SRC[s][1] && t->hd.kcmpnm[2] == CH[c]);
        cv_eq("distance", t->hd.dist, rr[i]); cv_eq("source depth", t->hd.evdp, zs); cv_eq("receiver elevation", t->hd.stel, -1000*zr); cv_eq("P time", t->hd.t0, tt[0][i]); cv_eq("S time", t->hd.t1, tt[1][i]);
        cv_eq("damping kept", t->hd.user0, wI); cv_eq("receiver Vp", t->hd.user1, 6); cv_eq("receiver Vs", t->hd.user2, 3.5); cv_eq("receiver density", t->hd.user3, 2.75); cv_eq("receiver 1/Qp", t->hd.user4, 0.005); cv_eq("receiver 1/Qs", t->hd.user5, 1/150.); cv_eq("source Vp", t->hd.user6, 6); cv_eq("source Vs", t->hd.user7, 3.5); cv_eq("source density", t->hd.user8, 2.75);
        cv_eq("origin time", t->hd.o, 0);
        int sg = (c == 0 ? -1 : 1)*(k == 1 ? -1 : 1);
        for (int j = 0; j < N; j++) {
            real_t x = 0; for (int q = 0; q <= nt/2; q++) { cplx_t v = U[k][i][s][c][q]*exp(I*PI2*df*b[i]*q); x += q == 0 ? creal(v) : 2*q == N ? creal(v)*(j % 2 ? -1 : 1) : 2*creal(v*exp(I*PI2*q*j/N)); }
            fac = skip ? 1 : exp(wI*(b[i] + j*h)); cv_eq("sample", t->data[j], sg*df*x*fac);
        }
    }
}
/*@cv bounded=1 cost=5 */
void H_traces_even(void) { body(4, 1); }
/*@cv bounded=1 cost=4 */
void H_traces_odd(void) { body(3, 1); }
/*@cv bounded=1 cost=4 */
void H_traces_upsampled(void) { body(cv_choose("odd", 2) ? 3 : 2, 2); }
/* ---- parameters of the integration */
static void pmodel(real_t va0, real_t vb0)
{
    FILE *f = fopen("m", "w"); fprintf(f, "3 %.17g %.17g 2.5\n0 6 3.5 2.75\n", va0, vb0); fclose(f);
}
/*@cv native=1 bounded=1 */
void H_parameters(void)
{
    setup(); real_t dt = cv_pos("dt", 0.05, 0.3), zeta = 0.8, k0 = 50, ampk = 2, keps = 0, vmin = 3, L, T, dk, t; int nt = 8 + cv_choose("odd", 2), o = cv_choose("options", 9);
    nr = 2; rr[0] = 5; rr[1] = 12; zs = 9; zr = 4; for (int i = 0; i < nr; i++) { tt[0][i] = 1 + i; tt[1][i] = 2 + i; } T = nt*dt;
    K_INTEG_CONVERG_METHOD cm = K_INTEG_CONVERG_AUTO; int fim = 0, saf = 0, ref = 0; real_t fl = 0, tol = 0, cut = 0, va0 = 5, vb0 = 3; const char *ex = "";
    strcpy(arg(), "-Mm"); if (cv_choose("swapped", 2)) { zs = 4; zr = 9; strcpy(arg(), "-D4/9"); } else strcpy(arg(), "-D9/4"); strcpy(arg(), "-R5,12");
    L = cv_pos("length", 15, 30);
    switch (o) {
    case 1: k0 = cv_pos("k0", 1, 9); ampk = cv_pos("ampk", 1, 2); keps = cv_real("keps", 0, 1); vmin = cv_pos("vmin", 1, 3); sprintf(arg(), "-K+k%.17g+s%.17g+e%.17g+v%.17g", k0, ampk, keps, vmin); break;
    case 2: ref = 1; strcpy(arg(), "-K+f"); zeta = cv_pos("zeta", 0.5, 1); ex = "+a"; break;
    case 3: fl = cv_pos("filon", 5, 9); cut = cv_pos("offset", 10, 20); fim = 1; break;
    case 4: tol = cv_pos("tolerance", 0.01, 0.1); saf = 1; break;
    case 5: cm = K_INTEG_CONVERG_DCM; strcpy(arg(), "-Cd"); keps = 0.1; strcpy(arg(), "-K+e0.1"); break;
    case 6: cm = K_INTEG_CONVERG_PTAM; strcpy(arg(), "-Cp"); break;
    case 7: cm = K_INTEG_CONVERG_REFUSE; strcpy(arg(), "-Cn"); va0 = 4; vb0 = 0; break;
    case 8: va0 = 0.2; vb0 = 0.05; break;
    }
    if (o == 7) vmin = 3.5; if (o == 8) vmin = 0.1;
    if (fim) sprintf(arg(), "-L%.17g+l%.17g+o%.17g", L, fl, cut); else if (saf) sprintf(arg(), "-L%.17g+a%.17g", L, tol); else sprintf(arg(), "-L%.17g", L);
    if (o == 2) sprintf(arg(), "-N%d/%.17g+w%.17g+a", nt, dt, zeta); else sprintf(arg(), "-N%d/%.17g", nt, dt); (void)ex;
    if (o == 1) strcpy(arg(), "-BrH");
    pmodel(va0, vb0); run(); cv_true("one computation", ncall == 1);
    cv_eq("imaginary frequency", g0.wI, zeta*PI/T); cv_true("number of frequencies", g0.nf == (size_t)nt/2 + 1); cv_true("all frequencies requested", g0.keepAllFreq == (o == 2)); cv_true("whole band", g0.nf1 == 0 && g0.nf2 == (size_t)nt/2); cv_true("distances", g0.nr == 2); cv_true("no derivatives", !g0.calc_upar);
    cv_true("boundaries", m0.topbound == (o == 1 ? GRT_BOUND_RIGID : GRT_BOUND_FREE) && m0.botbound == GRT_BOUND_HALFSPACE);
    dk = 2*PI/(L*12); cv_eq("wavenumber step", K.dk, dk); cv_eq("zero-frequency wavenumber limit", K.k0, k0*PI/5); cv_eq("frequency factor", K.ampk, ampk); cv_eq("early stop", K.keps, cm == K_INTEG_CONVERG_AUTO ? keps : 0); cv_eq("reference velocity", K.vmin, vmin);
    cv_true("fixed limit", K.use_kmax_ref == ref); cv_true("convergence method", K.cvgmet == cm); cv_true("Filon methods", K.applyFIM == fim && K.applySAFIM == saf);
    if (fim || saf) cv_eq("split wavenumber", K.kcut, cut/12); if (fim) cv_eq("Filon step", K.filondk, 2*PI/(fl*12)); if (saf) cv_eq("adaptive tolerance", K.sa_tol, tol); (void)t;
}
/* frequency band -H */
/*@cv native=1 bounded=1 */
void H_band(void)
{
    setup(); int nt = 8, a = cv_choose("low", 3), b = cv_choose("high", 3); real_t dt = cv_pos("dt", 0.1, 1), f1 = -1, f2 = -1, df = 1/(nt*dt); nr = 1; rr[0] = 3; zs = 8; zr = 4; tt[0][0] = 1; tt[1][0] = 2; model("m", 0, 0);
    if (a) f1 = cv_pos("f1", 0.01, 2); if (b) f2 = cv_pos("f2", 0.01, 2); if (a == 2) f1 = 2*df; if (b == 2) f2 = 3*df; if (a && b) cv_assume_le(f1, f2);
    strcpy(arg(), "-Mm"); strcpy(arg(), "-D8/4"); strcpy(arg(), "-R3"); strcpy(arg(), "-L20"); sprintf(arg(), "-N%d/%.17g", nt, dt); if (a || b) sprintf(arg(), "-H%.17g/%.17g", f1, f2);
    run(); int lo = nt/2, hi = 0; for (int q = nt/2; q >= 0; q--) if (a == 2 ? q >= 2 : !a || q*df >= f1) lo = q; for (int q = 0; q <= nt/2; q++) if (b == 2 ? q <= 3 : !b || q*df <= f2) hi = q; if (hi < lo) hi = lo;
    if (a == 2 || b == 2) cv_cover("limits on the frequency grid"); else { cv_true("lower frequency index", (int)g0.nf1 == lo); cv_true("upper frequency index", (int)g0.nf2 == hi); }
    cv_true("band is inside", g0.nf1 <= g0.nf2 && g0.nf2 < g0.nf);
}
/* automatic length: periodic sources arrive after every window (Bouchon's criterion), also for windows that start late */
/*@cv native=1 bounded=1 */
void H_auto_length(void)
{
    setup(); real_t dt = cv_pos("dt", 0.5, 4), t0 = 0, v0 = 0, tm, far, T; int nt = 8, e = cv_choose("begin", 3); nr = 2; rr[0] = 5; rr[1] = 12; zs = 20; zr = 4; if (cv_choose("other_distances", 2)) { rr[0] = 3; rr[1] = 7; zs = 28; } model("m", 0, 0); T = nt*dt;
    for (int i = 0; i < nr; i++) { tt[0][i] = cv_pos("tp", 1, 3); tt[1][i] = 9; } cv_assume_le(tt[0][0], tt[0][1]);
    strcpy(arg(), "-Mm"); sprintf(arg(), "-D%g/4", zs); sprintf(arg(), "-R%g,%g", rr[0], rr[1]); sprintf(arg(), "-N%d/%.17g", nt, dt); if (cv_choose("zero_length", 2)) strcpy(arg(), "-L0"); tm = T;
    if (e == 1) { t0 = cv_real("t0", -1, 3); v0 = cv_pos("v0", 2, 8); sprintf(arg(), "-E%.17g/%.17g", t0, v0); tm = t0 + hypot(rr[1], zs - zr)/v0 + T; }
    if (e == 2) { t0 = -cv_pos("before", 0.1, 1); sprintf(arg(), "-Ep%.17g", t0); tm = t0 + tt[0][1] + T; }
    cv_assume_le(0, tm); run();
    far = 2*PI/K.dk - rr[1]; cv_le("at least the default length", 15*rr[1]*(1 - 1e-12), 2*PI/K.dk);
    real_t q = 6*tm; if (q*q > (zs - zr)*(zs - zr)) cv_le("periodic sources stay outside the time window", q*q - (zs - zr)*(zs - zr), far*far); else cv_cover("window ends before any arrival");
}
/* selected sources; liquid source layer: only the explosion */
/*@cv native=1 bounded=1 */
void H_selected(void)
{
    static const char *G[] = {"-Ge", "-Gv", "-Gh", "-Gs", "-Geh", "-Gvs", ""}; static const int S[] = {1, 2, 4, 56, 5, 58, 63}; char p[99]; int k = cv_choose("selection", 7), liq = cv_choose("liquid_source", 2), used = S[k], der = cv_choose("derivatives", 2);
    setup(); model("m", 0, liq); nr = 1; rr[0] = 3; zs = liq ? 1 : 8; zr = 4; tt[0][0] = 1; tt[1][0] = 2; liq_src = liq; strcpy(arg(), "-Mm"); strcpy(arg(), liq ? "-D1/4" : "-D8/4"); strcpy(arg(), "-R3"); strcpy(arg(), "-N2/0.5"); if (k < 6) strcpy(arg(), G[k]); if (der) strcpy(arg(), "-e");
    if (liq) used &= 1; if (liq) cv_exit_ok(); 
    /* travel time of S through a liquid source layer is not used: any value */
    run();
    for (int d = 0; d < 3; d++) for (int s = 0; s < 6; s++) for (int c = 0; c < 3; c++) { sprintf(p, "out/m_%d_4_3/%s%s%c.sac", (int)zs, d == 0 ? "" : d == 1 ? "z" : "r", SRC[s], CH[c]); FILE *f = fopen(p, "r"); cv_true("exactly the selected components are written", (f != NULL) == ((used >> s & 1) && (d == 0 || der) && !(c == 2 && (s == 0 || s == 1 || s == 3)))); if (f) fclose(f); }
}
/* several depths: every pair is computed and stored under its own name; a liquid source layer does not affect the other depths */
/*@cv native=1 bounded=1 */
void H_depths(void)
{
    char p[99]; int range = cv_choose("range", 2); setup(); multi = 1; model("m", 0, 1); nr = 1; rr[0] = 3; tt[0][0] = 1; tt[1][0] = 2; strcpy(arg(), "-Mm"); strcpy(arg(), range ? "-Ds1/8/7" : "-Ds1,8"); strcpy(arg(), range ? "-Dr4/5.5/1.5" : "-Dr4,5.5"); strcpy(arg(), "-R3"); strcpy(arg(), "-N1/0.5+a");
    run(); cv_true("every pair of depths is computed", ncall == 4);
    for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) for (int s = 0; s < 6; s++) {
        sprintf(p, "out/m_%g_%g_3/%sZ.sac", MS[a], MR[b], SRC[s]); FILE *f = fopen(p, "r"); cv_true("selected components of every depth", (f != NULL) == (s == 0 || a == 1)); if (!f) continue;
        fclose(f); SACTRACE *t = grt_read_SACTRACE(p, false); cv_eq("functions of this pair of depths", t->data[0], -2*creal(V0[2*a + b][s])); cv_eq("source depth", t->hd.evdp, MS[a]); cv_eq("receiver elevation", t->hd.stel, -1000*MR[b]);
    }
}
/*@cv bounded=1 */
void H_refused(void)
{
    static const char *bad[] = {"-N0/1", "-N8/0", "-N8", "-N8/-1", "-N8/1+n0", "-N8/1+w0", "-N8/1+w-1", "-N8/1+x", "-D-1/0", "-D1/-1", "-D1", "-L1+l2+a0.1", "-L20+x1", "-Cx", "-Ep1", "-E0/-1", "-K+k-1", "-K+s-1", "-K+v0", "-K+v-1", "-K+z", "-Gx", "-G", "-H3/2", "-H3", "-Bx", "-BfFh", "-P0", "-Q", "-Ds2", "-R5,3", "-R-1", "-R3/1/1", "-Mnone"};
    int k = cv_choose("case", 44); setup(); model("m", 0, 0); nr = 1; rr[0] = 3; zs = 8; zr = 4; tt[0][0] = 1; tt[1][0] = 2;
    if (k != 34) strcpy(arg(), "-Mm"); if (k != 35) strcpy(arg(), "-D8/4"); if (k != 36) strcpy(arg(), "-R3"); if (k != 37) strcpy(arg(), "-N4/0.5"); if (k == 38) nopt--, nopt -= 0;
    if (k < 34) strcpy(arg(), bad[k]);
    if (k == 39) { strcpy(arg(), "-Ds1,2"); strcpy(arg(), "-Dr3"); }
    if (k == 40) { strcpy(arg(), "-R0,3"); strcpy(arg(), "-L20+l5"); rr[0] = 0; } if (k == 41) { strcpy(arg(), "-R0,3"); strcpy(arg(), "-L20+a0.1"); rr[0] = 0; }
    if (k == 42) strcpy(arg(), "-D3/4"); if (k == 43) { FILE *f = fopen("m", "w"); fprintf(f, "3 5 3 2.5\n0 6 3.5\n"); fclose(f); }
    if (k == 42) { model("m", 0, 1); }
    cv_must_exit("invalid request is refused"); run();
}
