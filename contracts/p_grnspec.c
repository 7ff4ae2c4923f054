/* P17: displacement spectra of the dynamic Green's functions: which frequencies are computed, with which wavenumber limits and
 * step, and how the wavenumber integrals become spectra.  The integrals (P06, P07) and the searched limit enter by contract. */
/*@cvfile wrap=grt_wavenumber_integral,grt_predict_kmax */
#include "cv.h"
#include <string.h>
#include <stdlib.h>
#include <tgmath.h>
#include "grt/common/const.h"
#include "grt/common/model.h"
#include "grt/dynamic/grn.h"
#include "grt/dynamic/grnspec.h"
#include "grt/integral/kmax.h"
#include "grt/integral/integ_process.h"
#define NF 4
#define NR 2
static MODEL1D *mod; static GRNSPEC g; static K_INTEG_PROCESS K0; static real_t f[NF], rs[NR];
static struct { cplx_t omega; K_INTEG_PROCESS K; real_t kp, kref, init, low; int np; cplxIntegGrid J[3][NR]; cplx_t u[3][NR][GRT_SRC_M_NUM][GRT_CHANNEL_NUM]; } C[NF]; static int nc;
real_t contract__grt_predict_kmax(MODEL1D_STATE *m, GRT_KernelFunc ker, real_t init, real_t low, real_t ref, size_t *n)
{
    cv_true("search: model and kernel", m->mod1d == mod && ker == grt_kernel); C[nc].init = init; C[nc].low = low; C[nc].kref = ref; C[nc].np++; *n = 1;
    if (cv_choose("search_reaches_the_limit", 2)) return C[nc].kp = ref;
    C[nc].kp = cv_pos("kmax", 0.5, 3); cv_assume_lt(C[nc].kp, ref); return C[nc].kp;
}
K_INTEG *contract__grt_wavenumber_integral(MODEL1D_STATE *m, size_t nr, real_t *r, K_INTEG_PROCESS *K, bool upar, GRT_KernelFunc ker)
{
    cv_true("integral: arguments", m->mod1d == mod && ker == grt_kernel && nr == g.nr && r == rs && upar == g.calc_upar && nc < NF);
    C[nc].omega = m->omega; C[nc].K = *K; K_INTEG *R = grt_init_K_INTEG(upar, nr);
    for (int k = 0; k < (upar ? 3 : 1); k++) for (size_t i = 0; i < nr; i++) GRT_LOOP_IntegGrid(s, v) { cplx_t x = cv_cplx("integral", -2, 2); C[nc].J[k][i][s][v] = x; (k == 0 ? R->sumJ : k == 1 ? R->sumJz : R->sumJr)[i][s][v] = x; }
    K->kmax = K->dk = -1; nc++; return R;
}
static int setup(int full)
{
    const int v = cv_choose("variant", 3);
    cv_tol(1e-9, 1e-12); memset(C, 0, sizeof C); nc = 0; memset(&g, 0, sizeof g); memset(&K0, 0, sizeof K0);
    mod = grt_init_mod1d(3); for (int i = 0; i < 3; i++) { mod->Thk[i] = 1; mod->Dep[i] = i; mod->Va[i] = 5; mod->Vb[i] = 3; mod->Rho[i] = cv_pos("rho", 1, 4); mod->Qainv[i] = mod->Qbinv[i] = 0; }
    mod->isrc = 1 + (v == 1); mod->ircv = 3 - mod->isrc; mod->depsrc = mod->isrc; mod->deprcv = mod->ircv; mod->Dep[1] = 1; mod->Dep[2] = 2; if (v == 2) mod->deprcv = mod->depsrc;
    g.nf = NF; g.freqs = f; real_t z = 0; for (int i = 0; i < NF; i++) { if (i) z += cv_pos("df", 0.05, 0.3); f[i] = z; }
    g.nf1 = full ? cv_choose("first", 2) : 1; g.nf2 = full ? 2 + cv_choose("last", 2) : 2; g.nr = NR; g.rs = rs; for (int i = 0; i < NR; i++) rs[i] = cv_pos("r", 1, 9);
    g.wI = cv_pos("damping", 0.01, 0.2); g.keepAllFreq = !full || cv_choose("all_frequencies", 2); g.calc_upar = v == 0;
    K0.k0 = cv_pos("k0", 0.1, 5); K0.ampk = cv_pos("ampk", 1, 2); K0.vmin = cv_pos("vmin", 1, 3); K0.dk = cv_pos("dk", 0.001, 0.02); K0.keps = cv_real("keps", -1, 1); K0.kcut = cv_real("kcut", 0, 1); K0.filondk = cv_real("filondk", 0, 1); K0.sa_tol = cv_real("tol", 0, 1);
    return v;
}
static void body(int ref, int method)
{
    setup(ref); K0.use_kmax_ref = ref; K0.cvgmet = method; K_INTEG_PROCESS K = K0; size_t n1 = g.nf1;
    if (!g.keepAllFreq) while (n1 <= g.nf2 && hypot(PI2*f[n1], g.wI) < 0.1) n1++;
    if (n1 > g.nf2) cv_must_exit("no frequency left is an error");
    grt_grnspec_allocate_u(&g); grt_integ_grn_spec(mod, &K, &g, false);
    cv_true("every frequency of the band is integrated once", nc == (int)(g.nf2 - n1 + 1));
    cv_eq("reference frequency of the attenuation", mod->omgref, PI2*f[g.nf2]);
    const real_t rho = mod->Rho[mod->isrc]; const int same = mod->depsrc == mod->deprcv;
    for (int q = 0; q < NF; q++) {
        int on = q >= (int)n1 && q <= (int)g.nf2, j = q - (int)n1; real_t dk = 0; cplx_t om = PI2*f[q] - I*g.wI;
        if (on) {
            real_t w = PI2*f[q], kref = hypot(K0.k0, K0.ampk*w/K0.vmin); int dcm = method == K_INTEG_CONVERG_AUTO && same;
            cv_eq("complex frequency", C[j].omega, om); dk = K0.dk;
            if (ref) { cv_true("no search", C[j].np == 0); cv_eq("wavenumber limit", C[j].K.kmax, kref); }
            else {
                cv_true("one search", C[j].np == 1); cv_eq("upper limit of the search", C[j].kref, kref); cv_eq("search starts at the step", C[j].init, K0.dk); cv_eq("wavenumbers that are always covered", C[j].low, w/K0.vmin);
                cv_eq("wavenumber limit", C[j].K.kmax, C[j].kp); if (method == K_INTEG_CONVERG_AUTO && C[j].kp >= kref) dcm = 1;
                if (floor(C[j].kp/dk) + 1 < GRT_MIN_NK) dk = C[j].kp/GRT_MIN_NK;
            }
            cv_eq("wavenumber step", C[j].K.dk, dk); cv_true("convergence method", C[j].K.cvgmet == (dcm ? K_INTEG_CONVERG_DCM : method)); cv_eq("early stop", C[j].K.keps, dcm ? 0 : K0.keps);
            cv_eq("split wavenumber", C[j].K.kcut, K0.kcut); cv_eq("Filon step", C[j].K.filondk, K0.filondk); cv_eq("adaptive tolerance", C[j].K.sa_tol, K0.sa_tol); cv_true("no Filon", !C[j].K.applyFIM && !C[j].K.applySAFIM);
        }
        for (int k = 0; k < (g.calc_upar ? 3 : 1); k++) for (int i = 0; i < NR; i++) {
            cplxChnlGrid m; memset(m, 0, sizeof m); if (on) grt_merge_Pk(C[j].J[k][i], m);
            GRT_LOOP_ChnlGrid(s, c) { cplx_t x = (k == 0 ? g.u : k == 1 ? g.uiz : g.uir)[i][s][c][q];
                if (on && !(GRT_SRC_M_ORDERS[s] == 0 && c == 2)) cv_eq("spectrum", x, -dk*m[s][c]/(4*PI*rho*om*om)); else cv_eq("no spectrum outside the band or for absent components", x, 0); }
        }
    }
}
/*@cv bounded=1 cost=4 */
void H_spectra_fixed(void) { body(1, cv_choose("method", 4)); }
/*@cv bounded=1 cost=9 */
void H_spectra_auto(void) { body(0, K_INTEG_CONVERG_AUTO); }
/*@cv bounded=1 cost=8 */
void H_spectra_searched(void) { body(0, 1 + cv_choose("method", 3)); }
