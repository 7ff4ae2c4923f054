/* P18: static Green's function libraries (grt static greenfn): integration parameters per depth pair, distances of the grid,
 * integrals -> library entries, media, model.  The wavenumber integral (P06, P07) and the searched limit enter by contract. */
/*@cvfile wrap=grt_wavenumber_integral,grt_predict_kmax */
#include "cv.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <tgmath.h>
#include "grt/common/const.h"
#include "grt/common/model.h"
#include "grt/static/static_grn.h"
#include "grt/static/stgrnlib.h"
#include "grt/integral/kmax.h"
#include "grt/integral/integ_process.h"
int static_greenfn_main(int argc, char **argv);
#define NC 4
#define NR 6
static char opt[24][160]; static int nopt;
static char *arg(void) { return opt[nopt++]; }
static void run(void) { char *av[28]; int n = 0; av[n++] = "static_greenfn"; for (int i = 0; i < nopt; i++) av[n++] = opt[i]; av[n] = 0; cv_getopt_reset(); cv_true("success", static_greenfn_main(n, av) == 0); }
static int nds, ndr, nn, ne, upar; static const real_t *ds, *dr, *gn, *ge;
static struct { K_INTEG_PROCESS K; real_t kp, kref, init, low; int np; real_t rs[NR]; int nr; cplxIntegGrid J[3][NR]; } C[NC]; static int nc;
static real_t va[3], vb[3], rho[3]; static const real_t top[4] = {0, 2, 5, 1e9};
static int layer(real_t z) { int i = 0; while (z > top[i + 1]) i++; return i; }
static void here(const MODEL1D *m) { cv_true("one computation per pair of depths", nc < nds*ndr); if (nc < nds*ndr) { cv_eq("source depth of the pair", m->depsrc, ds[nc/ndr]); cv_eq("receiver depth of the pair", m->deprcv, dr[nc % ndr]); } }
real_t contract__grt_predict_kmax(MODEL1D_STATE *m, GRT_KernelFunc ker, real_t init, real_t low, real_t ref, size_t *n)
{
    here(m->mod1d); cv_true("search: static kernel", ker == grt_static_kernel); C[nc].init = init; C[nc].low = low; C[nc].kref = ref; C[nc].np++; *n = 1;
    if (cv_choose("search_reaches_the_limit", 2)) return C[nc].kp = ref;
    C[nc].kp = cv_pos("kmax", 0.5, 3); cv_assume_lt(C[nc].kp, ref); return C[nc].kp;
}
K_INTEG *contract__grt_wavenumber_integral(MODEL1D_STATE *m, size_t nr, real_t *r, K_INTEG_PROCESS *K, bool u, GRT_KernelFunc ker)
{
    const MODEL1D *d = m->mod1d; here(d); cv_true("integral: static kernel, derivatives", ker == grt_static_kernel && u == upar && nr <= NR);
    int s = layer(d->depsrc); cv_eq("elastic modulus of the source layer", m->mu[d->isrc], vb[s]*vb[s]*rho[s]); cv_true("boundaries", d->topbound == GRT_BOUND_FREE && d->botbound == GRT_BOUND_HALFSPACE);
    C[nc].K = *K; C[nc].nr = (int)nr; K_INTEG *R = grt_init_K_INTEG(u, nr); for (size_t i = 0; i < nr; i++) C[nc].rs[i] = r[i];
    for (int k = 0; k < (u ? 3 : 1); k++) for (size_t i = 0; i < nr; i++) GRT_LOOP_IntegGrid(q, v) { real_t x = cv_real("integral", -2, 2); C[nc].J[k][i][q][v] = x; (k == 0 ? R->sumJ : k == 1 ? R->sumJz : R->sumJr)[i][q][v] = x; }
    nc++; return R;
}
static void setup(void)
{
    cv_fs(); cv_tol(1e-9, 1e-12); cv_stdout("log"); nopt = nc = 0; memset(C, 0, sizeof C); FILE *f = fopen("m", "w");
    for (int i = 0; i < 3; i++) { va[i] = cv_pos("vp", 4, 8); vb[i] = cv_pos("vs", 2, 4); rho[i] = cv_pos("rho", 2, 3); fprintf(f, "%d %.17g %.17g %.17g\n", i == 1 ? 3 : 2, va[i], vb[i], rho[i]); }
    fclose(f); strcpy(arg(), "-Mm"); strcpy(arg(), "-Olib.nc");
}
static const real_t Z1[1] = {0}, S1[1] = {4}, V1[1] = {1}, S2[2] = {1, 6}, V2[2] = {0.5, 6}, N1[3] = {-4, 0, 4}, E1[2] = {0, 3}, E2[3] = {1, 1.0004, 10}, E3[2] = {0, 7};
static void body(int g, int o)
{
    setup(); real_t k0 = 50, keps = 0, L = 15, rmax; int ref = 0, fim = 0, saf = 0; real_t fl = 0, tol = 0, cut = 0; K_INTEG_CONVERG_METHOD cm = K_INTEG_CONVERG_AUTO;
    upar = cv_choose("derivatives", 2); if (upar) strcpy(arg(), "-e");
    if (g == 0) { nds = ndr = 1; ds = S1; dr = V1; strcpy(arg(), "-D4/1"); gn = N1; nn = 3; ge = E1; ne = 2; strcpy(arg(), "-X-4/4/4"); strcpy(arg(), "-Y0/3/3"); rmax = 5; }
    else if (g == 1) { nds = ndr = 2; ds = S2; dr = V2; strcpy(arg(), "-Ds1,6"); strcpy(arg(), "-Dr0.5,6"); gn = Z1; nn = 1; ge = E3; ne = 2; strcpy(arg(), "-R0,7"); rmax = 7; }
    else { nds = ndr = 1; ds = S1; dr = V1; strcpy(arg(), "-D4/1"); gn = Z1; nn = 1; ge = E2; ne = 3; strcpy(arg(), "-R1,1.0004,10"); rmax = 10; }
    switch (o) {
    case 1: k0 = cv_pos("k0", 1, 9); keps = cv_real("keps", 0, 1); L = cv_pos("length", 15, 30); sprintf(arg(), "-K+k%.17g+e%.17g", k0, keps); sprintf(arg(), "-L%.17g", L); break;
    case 2: ref = 1; strcpy(arg(), "-K+f"); break;
    case 3: L = cv_pos("length", 15, 30); fl = cv_pos("filon", 5, 9); cut = cv_pos("offset", 10, 20); fim = 1; sprintf(arg(), "-L%.17g+l%.17g+o%.17g", L, fl, cut); break;
    case 4: tol = cv_pos("tolerance", 0.01, 0.1); saf = 1; sprintf(arg(), "-L+a%.17g", tol); break;
    case 5: cm = K_INTEG_CONVERG_DCM; strcpy(arg(), "-Cd"); strcpy(arg(), "-K+e0.1"); break;
    case 6: cm = K_INTEG_CONVERG_PTAM; strcpy(arg(), "-Cp"); break;
    case 7: cm = K_INTEG_CONVERG_REFUSE; strcpy(arg(), "-Cn"); break;
    }
    run(); cv_true("every pair of depths is computed", nc == nds*ndr);
    STGRNLIB *l = grt_stgrnlib_load_nc("lib.nc"); cv_true("library readable", l != NULL); cv_true("sizes", l->ndepsrc == (size_t)nds && l->ndeprcv == (size_t)ndr && l->nnorth == (size_t)nn && l->neast == (size_t)ne && l->nr == (size_t)nn*ne && l->calc_upar == upar);
    for (int i = 0; i < nn; i++) cv_eq("north coordinate", l->norths[i], gn[i]); for (int i = 0; i < ne; i++) cv_eq("east coordinate", l->easts[i], ge[i]);
    for (int a = 0; a < nds; a++) { int q = layer(ds[a]); cv_eq("source depth", l->depsrcs[a], ds[a]); cv_eq("source Vp", l->src_va[a], va[q]); cv_eq("source Vs", l->src_vb[a], vb[q]); cv_eq("source density", l->src_rho[a], rho[q]); }
    for (int b = 0; b < ndr; b++) { int q = layer(dr[b]); cv_eq("receiver depth", l->deprcvs[b], dr[b]); cv_eq("receiver Vp", l->rcv_va[b], va[q]); cv_eq("receiver Vs", l->rcv_vb[b], vb[q]); cv_eq("receiver density", l->rcv_rho[b], rho[q]); }
    cv_true("model kept", l->nlayer == 3); for (int i = 0; i < 3; i++) { if (i < 2) cv_eq("layer thickness", l->modarr[i][0], top[i + 1] - top[i]); cv_eq("layer Vp", l->modarr[i][1], va[i]); cv_eq("layer Vs", l->modarr[i][2], vb[i]); cv_eq("layer density", l->modarr[i][3], rho[i]); }
    for (int a = 0; a < nds; a++) for (int b = 0; b < ndr; b++) {
        int j = a*ndr + b, same = ds[a] == dr[b], dcm = cm == K_INTEG_CONVERG_AUTO && same, q = layer(ds[a]); real_t hs = fabs(ds[a] - dr[b]), kref, dk = 2*PI/(L*rmax), mu = vb[q]*vb[q]*rho[q]; if (hs < 0.1) hs = 0.1; kref = k0*PI/hs;
        if (ref) { cv_true("no search", C[j].np == 0); cv_eq("wavenumber limit", C[j].K.kmax, kref); }
        else {
            cv_true("one search", C[j].np == 1); cv_eq("upper limit of the search", C[j].kref, kref); cv_eq("search starts at the step", C[j].init, dk); cv_eq("wavenumbers that are always covered", C[j].low, dk); cv_eq("wavenumber limit", C[j].K.kmax, C[j].kp);
            if (cm == K_INTEG_CONVERG_AUTO && C[j].kp >= kref) dcm = 1;
            if (floor(C[j].kp/dk) + 1 < GRT_MIN_NK) dk = C[j].kp/GRT_MIN_NK;
        }
        cv_eq("wavenumber step", C[j].K.dk, dk); cv_true("convergence method", C[j].K.cvgmet == (dcm ? K_INTEG_CONVERG_DCM : cm)); cv_eq("early stop", C[j].K.keps, dcm || cm != K_INTEG_CONVERG_AUTO ? 0 : keps); cv_true("Filon methods", C[j].K.applyFIM == fim && C[j].K.applySAFIM == saf);
        if (fim || saf) cv_eq("split wavenumber", C[j].K.kcut, cut/rmax); if (fim) cv_eq("Filon step", C[j].K.filondk, 2*PI/(fl*rmax)); if (saf) cv_eq("adaptive tolerance", C[j].K.sa_tol, tol); cv_true("no process files", C[j].K.fstats == NULL);
        for (int x = 0; x < nn; x++) for (int y = 0; y < ne; y++) {
            real_t r = hypot(gn[x], ge[y]); int p = x*ne + y, at = -1; for (int i = 0; i < C[j].nr; i++) if (fabs(C[j].rs[i] - r) < 1e-8) { cv_true("distances are integrated once", at < 0); at = i; } cv_true("distance is integrated", at >= 0); if (at < 0) continue;
            for (int k = 0; k < (upar ? 3 : 1); k++) { cplxChnlGrid m; memset(m, 0, sizeof m); grt_merge_Pk(C[j].J[k][at], m);
                GRT_LOOP_ChnlGrid(s, c) if (!(c == 2 && (s == 0 || s == 1 || s == 3))) cv_eq("library entry", (k == 0 ? l->u : k == 1 ? l->uiz : l->uir)[a][b][p][s][c], (c == 0 ? -1 : 1)*(k == 1 ? -1 : 1)*dk/(4*PI*mu)*creal(m[s][c])); }
        }
    }
}
/*@cv bounded=1 cost=4 */
void H_library_grid(void) { body(0, 0); }
/*@cv bounded=1 cost=9 */
void H_library_depths(void) { body(1, cv_choose("options", 2) ? 2 : 0); }
/*@cv bounded=1 cost=7 */
void H_library_options(void) { body(2, 1 + cv_choose("options", 7)); }
/*@cv bounded=1 */
void H_library_refused(void)
{
    static const char *bad[] = {"-D-1/0", "-D1/-1", "-D1", "-Ds3", "-L1+l2+a0.1", "-L20+x1", "-Cx", "-K+k-1", "-K+z", "-Bx", "-BfFh", "-Q", "-R5,3", "-R-1", "-X3/1/1", "-X1/3/0", "-X1/3", "-Y3/1/1", "-Y1/3/-1", "-Y1", "-Mnone"};
    int k = cv_choose("case", 30); setup(); upar = 0; nds = ndr = 1; ds = S1; dr = V1; 
    if (k == 21) nopt = 0; if (k == 22) nopt = 1; if (k != 23) strcpy(arg(), "-D4/1"); if (k != 24 && k != 25 && k != 26) strcpy(arg(), "-R3"); if (k == 25) strcpy(arg(), "-X1/2/1"); if (k == 26) strcpy(arg(), "-Y1/2/1");
    if (k == 21) strcpy(arg(), "-Olib.nc"); if (k < 21) strcpy(arg(), bad[k]); if (k == 27) { strcpy(arg(), "-R0,3"); strcpy(arg(), "-L20+l5"); } if (k == 28) { strcpy(arg(), "-R0,3"); strcpy(arg(), "-L+a0.1"); }
    if (k == 29) { FILE *f = fopen("m", "w"); fprintf(f, "2 5 0 1\n0 6 3.5 2.7\n"); fclose(f); }
    cv_must_exit("invalid request is refused"); run();
}
