/* P20: search of the wavenumber limit.  The kernel is a recording one: at the j-th wavenumber one channel (displacement or vertical
 * derivative) has a listed value times an arbitrary amplitude, the others vanish or have converged.  Specification: the first wavenumber
 * from which every channel satisfied the criterion three times in a row (all three at or beyond the lower bound), else the limit. */
#include "cv.h"
#include <string.h>
#include <stdlib.h>
#include <tgmath.h>
#include "grt/common/const.h"
#include "grt/common/model.h"
#include "grt/integral/kernel.h"
#include "grt/integral/kmax.h"
#define NS 140
static const int MORD[6] = {0, 0, 1, 0, 1, 2};
#define FORCE(i) ((i) == 1 || (i) == 2)
static real_t ks[NS], amp; static int ns, cim, cc, part, pattern, constant; static cplx_t ph;
/* size of the selected channel at sample j, relative to the amplitude */
static real_t level(int j)
{
    static const real_t T[6][8] = {{1, 1, 0.0099, 0.0099, 0.0099, 0.0099, 0, 0}, {0.5, 1, 0.009, 0.009, 0.02, 0.009, 0.009, 0.009}, {1, 2, 3, 0.02, 0.025, 0.01, 0.001, 0}, {1, 0.5, 1, 0.5, 1, 0.5, 1, 0.5}, {0, 0, 0, 0, 0, 0, 0, 0}, {1, 0.98, 1, 0.3, 0.26, 0.29, 0.28, 0.27}};
    return T[pattern][pattern == 3 ? j % 2 : j < 8 ? j : 7];
}
static void ker(MODEL1D_STATE *st, const real_t k, cplxChnlGrid Q, bool up, cplxChnlGrid Qz)
{
    (void)st; cv_true("derivatives requested", up); cv_true("number of samples", ns < NS); if (ns >= NS) exit(1);
    for (int i = 0; i < 6; i++) for (int c = 0; c < 3; c++) {
        int wild = MORD[i] == 0 && c == 2;                    /* channels that do not exist: arbitrary values are ignored */
        Q[i][c] = wild ? 5*(1 + ns % 3) : 0; Qz[i][c] = wild ? 1 + ns % 2 : 0;
    }
    real_t a = amp*level(ns);
    if (part) Qz[cim][cc] = a*ph*(constant && !FORCE(cim) ? k : 1); else Q[cim][cc] = a*ph/(constant && FORCE(cim) ? k : 1);
    ks[ns++] = k;
}
static real_t F(int j) { return constant ? level(j) : sqrt(ks[j])*level(j); }
static void search(int cst, int geo)
{
    static const real_t INIT[4] = {1, 1e-7, 2, 0.01}, REF[4] = {1.25, 3, 2.5, 2.5}; const real_t GROW[4] = {0.01, 0.5, 0.01, pow(REF[3]/INIT[3], 1.0/40) - 1};
    cv_tol(1e-9, 1e-12); MODEL1D *m = grt_init_mod1d(3); m->depsrc = cst ? 1 : 2; m->deprcv = 1; MODEL1D_STATE *st = grt_init_mod1d_state(m);
    constant = cst; ns = 0; amp = cv_pos("amplitude", 0.1, 9); cv_assume_lt(1e-9, amp); ph = 0.6 + 0.8*I;
    int id = cv_choose("channel", 16); for (int i = 0, q = 0; i < 6; i++) for (int c = 0; c < 3; c++) { if (MORD[i] == 0 && c == 2) continue; if (q++ == id) { cim = i; cc = c; } }
    part = cv_choose("part", 2); pattern = (id/2 + 3*part + geo) % 6;
    real_t init = INIT[geo], ref = REF[geo], dkm = ref/40, low = id % 3 == 0 ? init/2 : id % 3 == 1 ? (geo == 1 ? 1e-5 : init*1.05) : ref*2; size_t cnt = 999;
    real_t k = grt_predict_kmax(st, ker, init, low, ref, &cnt), lo = low < init ? init : low > ref ? ref : low; 
    /* the samples */
    cv_true("at least one sample", ns > 0); cv_eq("the search starts at the initial wavenumber", ks[0], init);
    for (int j = 1; j < ns; j++) { real_t d = GROW[geo]*ks[j - 1]; if (d > dkm) d = dkm; cv_eq("next wavenumber", ks[j], ks[j - 1] + d); }
    /* first sample where the criterion held three times */
    int run = 0, stop = -1; real_t fm = 0;
    for (int j = 0; j < ns; j++) {
        real_t f = F(j), d = constant ? fabs(level(j) - (j ? level(j - 1) : 0)) : f; if (f > fm) fm = f;
        run = ks[j] >= lo && d <= (constant ? 0.05 : 0.01)*fm ? run + 1 : 0; if (run >= 3 && stop < 0) stop = j;
    }
    if (stop >= 0) { cv_true("stops at the first converged wavenumber", stop == ns - 1); cv_eq("wavenumber limit", k, ks[ns - 1]); cv_true("steps", cnt == (size_t)(ns - 1)); }
    else { real_t d = GROW[geo]*ks[ns - 1]; if (d > dkm) d = dkm; cv_eq("wavenumber limit is the given one", k, ref); cv_true("steps", cnt == (size_t)ns); cv_true("searched up to the limit", ks[ns - 1] < ref && ks[ns - 1] + d >= ref); }
}
/*@cv bounded=1 cost=4 */
void H_decay_zero(void) { search(0, 0); }
/*@cv bounded=1 cost=9 */
void H_decay_zero_wide(void) { search(0, 1); }
/*@cv bounded=1 cost=4 */
void H_decay_constant(void) { search(1, 2); }
/*@cv bounded=1 cost=9 */
void H_decay_constant_wide(void) { search(1, 1); }
/*@cv bounded=1 cost=9 */
void H_decay_zero_factor(void) { search(0, 3); }
/*@cv bounded=1 cost=9 */
void H_decay_constant_factor(void) { search(1, 3); }
/* nothing to search */
void H_no_interval(void)
{
    MODEL1D *m = grt_init_mod1d(3); m->depsrc = cv_choose("same_depth", 2) ? 1 : 2; m->deprcv = 1; MODEL1D_STATE *st = grt_init_mod1d_state(m); ns = 0; size_t cnt = 9;
    real_t ref = cv_pos("ref", 1, 5), init = cv_pos("init", 5, 9); cv_assume_le(ref, init);
    cv_eq("limit", grt_predict_kmax(st, ker, init, cv_real("low", 0, 9), ref, cv_choose("count", 2) ? &cnt : NULL), ref); cv_true("kernel not evaluated", ns == 0);
}
