/* P11: earth models read from text: layers, source/receiver levels, refused input; elastic moduli and vertical slowness.
 * Specification: the medium as a function of depth defined by the file (the upper layer exactly at an interface). */
#include "spec.h"
#include <stdio.h>
#include <tgmath.h>
#include "grt/common/model.h"
#include "grt/common/attenuation.h"
#define NL 5
static int n, withdep, hasQ; static real_t th[NL], top[NL], med[NL][5];
/* positive layers; format 0: thickness column, 1: depth of the layer tops */
static void layers(int nmin, int nmax, int liquid)
{
    cv_fs(); cv_tol(1e-9, 1e-9);
    n = cv_size("layers", nmin, nmax, nmax + 1); withdep = cv_choose("depth_format", 2); hasQ = cv_choose("has_Q", 2);
    real_t z = 0;
    for (int i = 0; i < n; i++) {
        th[i] = cv_pos("thickness", 0.1, 3); top[i] = z; z += th[i];
        med[i][0] = cv_pos("vp", 3, 8); med[i][1] = liquid && cv_choose("liquid", 2) ? 0 : cv_pos("vs", 1, 4); med[i][2] = cv_pos("rho", 1, 4);
        med[i][3] = hasQ ? cv_pos("Qp", 50, 500) : 0; med[i][4] = hasQ ? cv_pos("Qs", 50, 500) : 0;
    }
}
static void write_model(void)
{
    FILE *f = fopen("m", "w"); fprintf(f, "# comment line\n");
    for (int i = 0; i < n; i++) {
        if (i == 1) fprintf(f, "\n   # indented comment\n");
        fprintf(f, i ? "  %.17g " : "%.17g\t", withdep ? top[i] : i == n - 1 ? cv_real("last_thickness", -1, 2) : th[i]); fprintf(f, "%.17g %.17g %.17g", med[i][0], med[i][1], med[i][2]);
        if (hasQ) fprintf(f, " %.17g %.17g", med[i][3], med[i][4]);
        fprintf(f, "\n");
    }
    fclose(f);
}
static void same_medium(const MODEL1D *m, size_t k, int i)
{
    cv_eq("vp", m->Va[k], med[i][0]); cv_eq("vs", m->Vb[k], med[i][1]); cv_eq("rho", m->Rho[k], med[i][2]);
    cv_eq("Qp", m->Qa[k], med[i][3]); cv_eq("Qs", m->Qb[k], med[i][4]);
    cv_eq("1/Qp", m->Qainv[k], hasQ ? 1/med[i][3] : 0); cv_eq("1/Qs", m->Qbinv[k], hasQ ? 1/med[i][4] : 0);
    cv_true("liquid flag", m->isLiquid[k] == (med[i][1] == 0));
}
void H_read_layers(void)
{
    layers(1, 3, 1); write_model(); size_t nl = 0;
    int bad = 0, allow = cv_choose("allow_liquid", 2); for (int i = 0; i < n; i++) if (med[i][1] == 0 && !allow) bad = 1;
    if (bad) cv_must_exit("liquid layers are refused unless allowed");
    real_t (*a)[GRT_MODARR_NCOL] = grt_read_modarr_from_file("m", &nl, allow);
    cv_true("number of layers", nl == (size_t)n);
    for (int i = 0; i < n; i++) { if (i < n - 1) cv_eq("thickness", a[i][0], th[i]); for (int j = 0; j < 5; j++) cv_eq("medium", a[i][j + 1], med[i][j]); }
}
/* one invalid number anywhere is refused */
void H_read_refuse(void)
{
    layers(2, 2, 0); int r = cv_choose("row", 2), c = cv_choose("column", 6), neg = cv_choose("negative", 2);
    if (c >= 4) cv_assume(hasQ);
    if (c == 0) cv_assume(neg);
    if (c == 2) cv_assume(neg);
    real_t bad = neg ? -cv_pos("bad", 0.1, 2) : 0;
    if (c == 0) { cv_assume(r == 0 || withdep); if (withdep) { cv_assume(r == 1); top[1] = bad; } else th[0] = bad; }
    else med[r][c - 1] = bad;
    write_model(); cv_must_exit("invalid layer is refused");
    grt_read_mod1d_from_file("m", 0, 0, true);
}
void H_read_columns(void)
{
    cv_fs(); static const char *rows[] = {"1 2 1\n", "1 2 1 2 100\n", "1 2 1 x\n", "abc\n", "", "# only a comment\n"}; int k = cv_choose("row", 6);
    FILE *f = fopen("m", "w"); if (k < 4 && cv_choose("second", 2)) fprintf(f, "1 5 3 2.5\n"); fprintf(f, "%s", rows[k]); fclose(f);
    size_t nl; cv_must_exit("malformed model file is refused"); grt_read_modarr_from_file("m", &nl, true);
}
/* ---- source and receiver levels */
static int layer_at(real_t z) { int i = 0; while (i + 1 < n && z > top[i + 1]) i++; return i; }
/*@cv cost=6 maxpaths=4000 */
void H_source_receiver(void)
{
    layers(1, 2, 1); real_t zs = cv_real("depsrc", 0, 4), zr = cv_real("deprcv", 0, 4); cv_assume_le(0, zs); cv_assume_le(0, zr);
    if (cv_choose("src_at_interface", 2)) { if (n > 1) zs = top[1]; else zs = 0; }
    if (cv_choose("same_depth", 2)) zr = zs; else if (cv_choose("rcv_at_interface", 2)) { if (n > 1) zr = top[n - 1]; else zr = 0; }
    int bad = 0; for (int i = 1; i < n; i++) if ((zs == top[i] || zr == top[i]) && (med[i - 1][1] == 0 || med[i][1] == 0)) bad = 1;
    write_model(); if (bad) cv_must_exit("source or receiver on an interface with a liquid is refused");
    MODEL1D *m = grt_read_mod1d_from_file("m", zs, zr, true);
    cv_true("two levels added", m->n == (size_t)n + 2); cv_true("levels inserted", m->srcrcv_isInserted);
    cv_true("receiver above the source", m->ircvup == (zr <= zs)); cv_true("receiver level ordered like the depth", m->ircvup == (m->ircv < m->isrc));
    cv_true("levels distinct and below the top", m->isrc != m->ircv && m->isrc >= 1 && m->ircv >= 1 && m->isrc < m->n && m->ircv < m->n);
    cv_eq("depth of the source", m->depsrc, zs); cv_eq("depth of the receiver", m->deprcv, zr);
    cv_eq("depth of the source level", m->Dep[m->isrc], zs); cv_eq("depth of the receiver level", m->Dep[m->ircv], zr);
    cv_eq("first layer starts at the surface", m->Dep[0], 0);
    int li = 0;
    for (size_t k = 0; k < m->n; k++) {
        if (k && k != m->isrc && k != m->ircv) { li++; cv_eq("interface depth", m->Dep[k], top[li]); }
        same_medium(m, k, li); cv_le("no negative thickness", 0, m->Thk[k]);
        if (k + 1 < m->n) cv_eq("thickness is the distance of the levels", m->Thk[k], m->Dep[k + 1] - m->Dep[k]);
    }
    cv_true("all layers kept", li == n - 1);
    cv_true("source medium", layer_at(zs) == 0 ? m->Rho[m->isrc] == med[0][2] : m->Rho[m->isrc] == med[layer_at(zs)][2]);
    cv_true("receiver medium", m->Rho[m->ircv] == med[layer_at(zr)][2]);
    cv_true("default boundaries", m->topbound == GRT_BOUND_FREE && m->botbound == GRT_BOUND_HALFSPACE);
    int bt = cv_choose("bottom", 3); GRT_BOUND_TYPE bb = bt == 0 ? GRT_BOUND_FREE : bt == 1 ? GRT_BOUND_RIGID : GRT_BOUND_HALFSPACE;
    int inlast = m->isrc + 1 == m->n || m->ircv + 1 == m->n, refuse = inlast && bb != GRT_BOUND_HALFSPACE; if (refuse) cv_must_exit("a bounded bottom layer must not contain source or receiver");
    grt_set_mod1d_boundary(m, GRT_BOUND_RIGID, bb); 
    cv_true("boundaries set", m->topbound == GRT_BOUND_RIGID && m->botbound == bb);
    MODEL1D *c = grt_copy_mod1d(m); li = 0;
    for (size_t k = 0; k < m->n; k++) { m->Thk[k] = m->Va[k] = m->Dep[k] = -1; if (k && k != m->isrc && k != m->ircv) li++; same_medium(c, k, li); }
    cv_eq("a copy is independent", c->Dep[c->isrc], zs); cv_true("copied levels", c->isrc == m->isrc && c->ircv == m->ircv && c->n == m->n);
}
/* without source and receiver levels (modal and travel-time use) */
void H_read_plain(void)
{
    layers(1, 3, 1); write_model(); MODEL1D *m = grt_read_mod1d_from_file("m", -1, -1, true);
    cv_true("no level inserted", m->n == (size_t)n && !m->srcrcv_isInserted && m->isrc >= m->n && m->ircv >= m->n);
    for (int i = 0; i < n; i++) { same_medium(m, i, i); cv_eq("depth", m->Dep[i], top[i]); if (i < n - 1) cv_eq("thickness", m->Thk[i], th[i]); }
}
void H_velocity_range(void)
{
    n = cv_size("layers", 1, 2, 2); MODEL1D *m = grt_init_mod1d(n);
    for (int i = 0; i < n; i++) { m->Va[i] = med[i][0] = cv_pos("vp", 3, 8); m->Vb[i] = med[i][1] = cv_choose("liquid", 2) ? 0 : cv_pos("vs", 1, 4); cv_assume_lt(med[i][0], 1e30); cv_assume_lt(med[i][1], 1e30); }
    real_t lo, hi; grt_get_mod1d_vmin_vmax(m, &lo, &hi); int hl = 0, hh = 0;
    for (int i = 0; i < n; i++) for (int j = 0; j < 2; j++) { real_t v = med[i][j]; if (j == 1 && v == 0) continue; cv_le("minimum velocity", lo, v); cv_le("maximum velocity", v, hi); hl |= lo == v; hh |= hi == v; }
    cv_true("extreme velocities are attained", hl && hh);
}
void H_velocity_search(void)
{
    n = cv_size("layers", 1, 2, 3); MODEL1D *m = grt_init_mod1d(n);
    for (int i = 0; i < n; i++) { m->Va[i] = med[i][0] = cv_pos("vp", 3, 8); m->Vb[i] = med[i][1] = cv_pos("vs", 1, 4); }
    real_t q = cv_pos("query", 1, 8), tol = cv_pos("tol", 0.01, 1); int in = 0; for (int i = 0; i < n; i++) for (int j = 0; j < 2; j++) if (fabs(q - med[i][j]) < tol) in = 1;
    cv_true("velocity search", grt_check_vel_in_mod(m, q, tol) == in);
}
void H_opposite_signs(void)
{
    layers(1, 1, 0); write_model(); real_t a = cv_pos("a", 0, 2), b = -cv_pos("b", 0, 2); cv_must_exit("depths of opposite sign are refused");
    if (cv_choose("swap", 2)) grt_read_mod1d_from_file("m", a, b, true); else grt_read_mod1d_from_file("m", b, a, true);
}
void H_medium_at_depth(void)
{
    layers(1, 3, 1); real_t a[NL][GRT_MODARR_NCOL], va, vb, rho, z = cv_real("depth", 0, 6);
    for (int i = 0; i < n; i++) { a[i][0] = th[i]; for (int j = 0; j < 5; j++) a[i][j + 1] = med[i][j]; }
    if (z < 0) cv_must_exit("negative depth is refused");
    grt_modarr_medium_at_depth(n, (const real_t (*)[GRT_MODARR_NCOL])a, z, &va, &vb, &rho);
    int i = layer_at(z); cv_eq("vp at depth", va, med[i][0]); cv_eq("vs at depth", vb, med[i][1]); cv_eq("rho at depth", rho, med[i][2]);
    grt_modarr_medium_at_depth(n, (const real_t (*)[GRT_MODARR_NCOL])a, z, NULL, NULL, NULL);
}
/* ---- moduli */
static void model_direct(int liquid)
{
    n = cv_size("layers", 1, 2, 3);
    for (int i = 0; i < n; i++) { th[i] = cv_pos("thickness", 0.1, 3); med[i][0] = cv_pos("vp", 4, 8); med[i][1] = liquid && cv_choose("liquid", 2) ? 0 : cv_pos("vs", 1, 3); med[i][2] = cv_pos("rho", 1, 4); med[i][3] = cv_choose("Qp", 2) ? cv_pos("Qp", 50, 500) : 0; med[i][4] = cv_choose("Qs", 2) ? cv_pos("Qs", 50, 500) : 0; }
}
static MODEL1D *build(void)
{
    MODEL1D *m = grt_init_mod1d(n); m->isrc = m->ircv = n; m->omgref = PI2;
    for (int i = 0; i < n; i++) { m->Thk[i] = th[i]; m->Va[i] = med[i][0]; m->Vb[i] = med[i][1]; m->Rho[i] = med[i][2]; m->Qa[i] = med[i][3]; m->Qb[i] = med[i][4]; m->isLiquid[i] = med[i][1] == 0;
        m->Qainv[i] = med[i][3] > 0 ? 1/med[i][3] : 0; m->Qbinv[i] = med[i][4] > 0 ? 1/med[i][4] : 0; }
    return m;
}
static cplx_t law(real_t Q, cplx_t wr, cplx_t w) { return Q > 0 ? 1 + log(w/wr)/(PI*Q) + I/(2*Q) : 1; }   /* causal constant-Q dispersion */
void H_moduli(void)
{
    cv_tol(1e-9, 1e-9); model_direct(1); MODEL1D *m = build(); MODEL1D_STATE *s = grt_init_mod1d_state(m); int el = cv_choose("elastic", 2);
    cplx_t w = cv_cplx("omega", 0.5, 5); cv_assume_ne(w, 0); real_t k = cv_pos("k", 0.2, 4); m->omgref = cv_pos("omgref", 1, 9);
    cv_assume_lt(0, creal(w));
    grt_update_mod1d_state_omega(s, w, el); grt_update_mod1d_state_k(s, k);
    cv_eq("frequency", s->omega, w); cv_eq("wavenumber", s->k, k); cv_eq("phase velocity", s->c_phase, w/k);
    for (int i = 0; i < n; i++) {
        cplx_t a = el ? 1 : law(med[i][3], m->omgref, w), b = el ? 1 : law(med[i][4], m->omgref, w), va = med[i][0]*a, vb = med[i][1]*b, mu = vb*vb*med[i][2], lam = va*va*med[i][2] - 2*mu;
        cv_assume_ne(va, 0); if (med[i][1] != 0) cv_assume_ne(vb, 0);
        cv_eq("P attenuation factor", s->atna[i], a); cv_eq("S attenuation factor", s->atnb[i], b);
        cv_eq("mu", s->mu[i], mu); cv_eq("lambda", s->lambda[i], lam); cv_assume_ne(lam + 3*mu, 0); cv_eq("delta", s->delta[i]*(lam + 3*mu), lam + mu);
        cv_eq("(c/vp)^2", s->caca[i]*va*va*k*k, w*w); cv_eq("vertical P factor", s->xa[i]*s->xa[i]*va*va*k*k, va*va*k*k - w*w);
        if (med[i][1] != 0) { cv_eq("(c/vs)^2", s->cbcb[i]*vb*vb*k*k, w*w); cv_eq("vertical S factor", s->xb[i]*s->xb[i]*vb*vb*k*k, vb*vb*k*k - w*w); }
        else { cv_eq("no S wave in a liquid", s->cbcb[i], 0); cv_eq("no S wave in a liquid", s->xb[i], 1); }
    }
}
/* source/receiver levels take the slowness of the layer they cut; copies of a state are independent */
void H_levels_slowness(void)
{
    cv_tol(1e-9, 1e-9); cv_fs(); n = 2; withdep = 0; hasQ = 1; real_t z = 0;
    for (int i = 0; i < n; i++) { th[i] = cv_pos("thickness", 1, 3); top[i] = z; z += th[i]; med[i][0] = cv_pos("vp", 3, 8); med[i][1] = cv_pos("vs", 1, 4); med[i][2] = cv_pos("rho", 1, 4); med[i][3] = cv_pos("Qp", 50, 500); med[i][4] = cv_pos("Qs", 50, 500); }
    write_model(); real_t zs = cv_pos("depsrc", 0, 5), zr = cv_pos("deprcv", 0, 5);
    MODEL1D *m = grt_read_mod1d_from_file("m", zs, zr, true); m->omgref = PI2; MODEL1D_STATE *s = grt_init_mod1d_state(m);
    cplx_t w = cv_cplx("omega", 0.5, 5); cv_assume_lt(0, creal(w)); real_t k = cv_pos("k", 0.2, 4); grt_update_mod1d_state_omega(s, w, 0); grt_update_mod1d_state_k(s, k);
    MODEL1D_STATE *c = grt_copy_mod1d_state(s);
    for (size_t i = 0; i < m->n; i++) {
        cplx_t va = m->Va[i]*law(m->Qa[i], m->omgref, w), vb = m->Vb[i]*law(m->Qb[i], m->omgref, w); cv_assume_ne(va, 0); cv_assume_ne(vb, 0);
        cv_eq("(c/vp)^2", s->caca[i]*va*va*k*k, w*w); cv_eq("vertical P factor", s->xa[i]*s->xa[i], 1 - s->caca[i]);
        cv_eq("(c/vs)^2", s->cbcb[i]*vb*vb*k*k, w*w); cv_eq("vertical S factor", s->xb[i]*s->xb[i], 1 - s->cbcb[i]);
        s->xa[i] = s->xb[i] = s->mu[i] = s->lambda[i] = s->caca[i] = s->cbcb[i] = 7;
        cv_eq("copied state", c->caca[i]*va*va*k*k, w*w); cv_eq("copied state", c->cbcb[i]*vb*vb*k*k, w*w); cv_eq("copied state", c->xa[i]*c->xa[i], 1 - c->caca[i]); cv_eq("copied state", c->mu[i], vb*vb*m->Rho[i]); cv_eq("copied state", c->lambda[i], va*va*m->Rho[i] - 2*c->mu[i]);
    }
}
