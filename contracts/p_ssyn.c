/* P15: static synthesis of point sources from a Green's function library (static syn), and the library file itself. */
#include "cv.h"
#include "ssyn.h"
static const unsigned USED[5] = {1, 6, 57, 56, 57}; static const GRT_SYN_TYPE T[5] = {GRT_SYN_EX, GRT_SYN_SF, GRT_SYN_TS, GRT_SYN_DC, GRT_SYN_MT};
static real_t par[GRT_MECHANISM_NUM], m0; static int mu, always_mu;
static void mechanism(int t)
{
    m0 = t == 1 ? 1e15 : 1e20; m0 *= cv_pos("M0", 0.5, 2); mu = always_mu || cv_choose("times_modulus", 2); sprintf(arg(), mu ? "-Su%.17g" : "-S%.17g", m0);
    if (t == 1) { for (int i = 0; i < 3; i++) par[i] = cv_real("force", -2, 2); sprintf(arg(), "-F%.17g/%.17g/%.17g", par[0], par[1], par[2]); }
    if (t == 4) { for (int i = 0; i < 6; i++) par[i] = cv_real("tensor", -2, 2); sprintf(arg(), "-T%.17g/%.17g/%.17g/%.17g/%.17g/%.17g", par[0], par[1], par[2], par[3], par[4], par[5]); }
    if (t == 2 || t == 3) {
        par[0] = cv_real("strike", 0, 360); par[1] = cv_real("dip", 0, 90); par[2] = t == 3 ? cv_real("rake", -180, 180) : 0;
        cv_assume_le(0, par[0]); cv_assume_le(par[0], 360); cv_assume_le(0, par[1]); cv_assume_le(par[1], 90); cv_assume_le(-180, par[2]); cv_assume_le(par[2], 180);
        if (t == 3) sprintf(arg(), "-M%.17g/%.17g/%.17g", par[0], par[1], par[2]); else sprintf(arg(), "-M%.17g/%.17g", par[0], par[1]);
    }
}
static real_t unit(int t) { return (t == 1 ? 1e-15 : 1e-20)*m0*(mu ? 1e10*svb[0]*svb[0]*srho[0] : 1); }
static void start(void) { always_mu = 0; cv_fs(); cv_tol(1e-8, 1e-8); nopt = 0; strcpy(arg(), "-Glib.nc"); strcpy(arg(), "-Oout.nc"); strcpy(arg(), "-s"); }
static void depths1(void) { nds = ndr = 1; zs[0] = 3; zr[0] = 0.5; }
/* one receiver anywhere: every bracket of the library distances (and outside of them) */
static void body(int t, int geo)
{
    int cart = cv_choose("cartesian", 2), der = cv_choose("derivatives", 2), pts = t ? t != 3 : cv_choose("points", 2); FIELD f; start(); upar = der; geometry(geo); depths1();
    if (cart) strcpy(arg(), "-N"); if (der) strcpy(arg(), "-e"); mechanism(t); library("lib.nc", USED[t]);
    real_t n = cv_real("north", -6, 6), e = cv_real("east", -6, 6), r = hypot(n, e);
    if (cv_choose("zero_distance", 2)) { n = e = r = 0; if (geo) cv_assume(0); } else { cv_assume_lt(1e-8, r); for (int i = 0; i < nr; i++) if (rs[i] > 0 && !cv_choose("beyond", 2)) { cv_assume_lt(r, rs[i] - 1e-7); } else { cv_assume_lt(rs[i] + 1e-7, r); } }
    if (pts) { FILE *q = fopen("pts", "w"); fprintf(q, "%.17g %.17g 0.5\n", n, e); fclose(q); strcpy(arg(), "-Qpts"); } else { sprintf(arg(), "-X%.17g/%.17g/1", n, n); sprintf(arg(), "-Y%.17g/%.17g/1", e, e); }
    cv_true("success", run() == 0); point(&f, zs[0], zr[0], n, e, T[t], m0, mu, par, cart, der); check(1, &f, unit(t), cart, der);
}
/*@cv replace=grt_set_source_radiation bounded=1 */
void H_ssyn_explosion(void) { body(0, cv_choose("geometry", 3)); }
/*@cv replace=grt_set_source_radiation bounded=1 */
void H_ssyn_force(void) { body(1, cv_choose("geometry", 3)); }
/*@cv replace=grt_set_source_radiation bounded=1 */
void H_ssyn_tensile(void) { body(2, 0); }
/*@cv replace=grt_set_source_radiation bounded=1 */
void H_ssyn_double_couple(void) { body(3, cv_choose("geometry", 3)); }
/*@cv replace=grt_set_source_radiation bounded=1 */
void H_ssyn_tensor(void) { body(4, 0); }
/* source and receiver depth: linear interpolation between the four neighbouring depth pairs, with the medium of each source depth */
/*@cv replace=grt_set_source_radiation bounded=1 */
void H_ssyn_depth(void)
{
    int t = cv_choose("mechanism", 2) ? 3 : 2, der = cv_choose("derivatives", 2), cart = cv_choose("cartesian", 2); FIELD f; start(); upar = der; geometry(4); nds = 1 + cv_choose("source_depths", 2); ndr = 1 + cv_choose("receiver_depths", 2);
    zs[0] = 2; zs[1] = 3.5; zr[0] = 0.25; zr[1] = 1;
    if (cart) strcpy(arg(), "-N"); if (der) strcpy(arg(), "-e"); always_mu = 1; mechanism(t); library("lib.nc", USED[t]);
    real_t a = zs[0], b = zr[0]; int opt_s = nds > 1 || cv_choose("Ds", 2), opt_r = ndr > 1 || cv_choose("Dr", 2);
    if (nds > 1) switch (cv_choose("at_source_depth", 3)) { case 0: break; case 1: a = zs[1]; break; default: a = cv_pos("Ds", 2, 3.5); cv_assume_lt(zs[0] + 1e-7, a); cv_assume_lt(a, zs[1] - 1e-7); }
    if (ndr > 1) switch (cv_choose("at_receiver_depth", 3)) { case 0: break; case 1: b = zr[1]; break; default: b = cv_pos("Dr", 0.25, 1); cv_assume_lt(zr[0] + 1e-7, b); cv_assume_lt(b, zr[1] - 1e-7); }
    if (opt_s) sprintf(arg(), "-Ds%.17g", a); if (opt_r) sprintf(arg(), "-Dr%.17g", b);
    cv_true("success", run() == 0); point(&f, a, b, 0, 2, T[t], m0, mu, par, cart, der); check(1, &f, unit(t), cart, der);
}
static real_t attr(int id, const char *k) { real_t v = -9; cv_true("attribute present", nc_get_att_double(id, NC_GLOBAL, k, &v) == NC_NOERR); return v; }
static void text(int id, const char *k, const char *want) { char s[32] = {0}; size_t n = 0; nc_inq_attlen(id, NC_GLOBAL, k, &n); cv_true("text attribute", n == strlen(want)); if (n < 32) { nc_get_att_text(id, NC_GLOBAL, k, s); cv_true("text attribute", !strcmp(s, want)); } }
static void head(int id, int grid, int cart, int der, const char *type, real_t dep)
{
    int v = -1; text(id, "layout", grid ? "grid" : "points"); text(id, "computeType", type); nc_get_att_int(id, NC_GLOBAL, "calc_upar", &v); cv_true("calc_upar", v == der); nc_get_att_int(id, NC_GLOBAL, "rot2ZNE", &v); cv_true("rot2ZNE", v == cart); cv_eq("source depth", attr(id, "depsrc"), dep);
}
static const char *TYPE[5] = {"EX", "SF", "TS", "DC", "MT"};
static real_t medium(int k, real_t z) { static const real_t M[2][3] = {{5, 3, 2.5}, {6, 3.5, 2.75}}; return M[z > 1.5][k]; }
/* receiver grids (own or the library's): row order, axes, receiver medium */
/*@cv replace=grt_set_source_radiation bounded=1 */
void H_ssyn_grid(void)
{
    FIELD f[6]; int own = cv_choose("own_grid", 2), cart = cv_choose("cartesian", 2), der = cv_choose("derivatives", 2); start(); upar = 1; geometry(2); depths1(); if (cv_choose("deep", 2)) zr[0] = 1.5; if (cv_choose("deeper", 2)) zr[0] = 2;
    if (cart) strcpy(arg(), "-N"); if (der) strcpy(arg(), "-e"); mechanism(0); library("lib.nc", 1); real_t X[3] = {-4, 0}, Y[3] = {3, 7.5}; int nx = 2, ny = 2; if (own) { strcpy(arg(), "-X3/5/2"); strcpy(arg(), "-Y-4/2/3"); X[0] = 3; X[1] = 5; Y[0] = -4; Y[1] = -1; Y[2] = 2; ny = 3; }
    cv_true("success", run() == 0);
    for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) point(&f[i*ny + j], zs[0], zr[0], X[i], Y[j], GRT_SYN_EX, m0, mu, par, cart, der);
    check(nx*ny, f, unit(0), cart, der);
    real_t x[4]; rvar("north", nx, x); for (int i = 0; i < nx; i++) cv_eq("north axis", x[i], X[i]); rvar("east", ny, x); for (int i = 0; i < ny; i++) cv_eq("east axis", x[i], Y[i]);
    int id; nc_open("out.nc", NC_NOWRITE, &id); head(id, 1, cart, der, "EX", zs[0]); cv_eq("receiver depth", attr(id, "deprcv"), zr[0]); cv_eq("receiver Vp", attr(id, "rcv_va"), medium(0, zr[0])); cv_eq("receiver Vs", attr(id, "rcv_vb"), medium(1, zr[0])); cv_eq("receiver density", attr(id, "rcv_rho"), medium(2, zr[0]));
    int v; cv_true("derivatives only on request", (nc_inq_varid(id, cart ? "zZ" : "rR", &v) == NC_NOERR) == der); nc_close(id);
}
/* listed points with their own depths */
/*@cv replace=grt_set_source_radiation bounded=1 */
void H_ssyn_points(void)
{
    FIELD f[2]; int cart = cv_choose("cartesian", 2), der = cv_choose("derivatives", 2), geom = cv_choose("geometry_columns", 2); start(); upar = 1; geometry(3); nds = 1; ndr = 2; zs[0] = 3; zr[0] = 0; zr[1] = 2;
    if (cart) strcpy(arg(), "-N"); if (der) strcpy(arg(), "-e"); mechanism(1); library("lib.nc", 6); real_t q[2][6] = {{0.6, 0.8, 0.5, 1, 2, 3}, {1.2, -1.6, 1.75, 4, 5, 6}}; q[0][2] = cv_pos("depth", 0, 2); cv_assume_lt(1e-7, q[0][2]); cv_assume_lt(q[0][2], 2 - 1e-7);
    FILE *p = fopen("pts", "w"); for (int i = 0; i < 2; i++) for (int c = 0; c < (geom ? 6 : 3); c++) fprintf(p, c == (geom ? 5 : 2) ? "%.17g\n" : "%.17g ", q[i][c]); fclose(p); strcpy(arg(), "-Qpts");
    cv_true("success", run() == 0); for (int i = 0; i < 2; i++) point(&f[i], zs[0], q[i][2], q[i][0], q[i][1], GRT_SYN_SF, m0, mu, par, cart, der);
    check(2, f, unit(1), cart, der);
    static const char *K[9] = {"north", "east", "depth", "strike", "dip", "rake", "rcv_va", "rcv_vb", "rcv_rho"}; real_t x[2];
    for (int k = 0; k < 9; k++) { if (!geom && k >= 3 && k < 6) continue; rvar(K[k], 2, x); for (int i = 0; i < 2; i++) cv_eq("value of a point", x[i], k < 6 ? q[i][k] : medium(k - 6, q[i][2])); }
    int id; nc_open("out.nc", NC_NOWRITE, &id); head(id, 0, cart, der, "SF", zs[0]); int v; cv_true("geometry only if given", (nc_inq_varid(id, "strike", &v) == NC_NOERR) == geom); nc_close(id);
}
void H_ssyn_type(void)
{
    int t = cv_choose("mechanism", 5); start(); upar = 0; geometry(4); depths1(); mechanism(t); library("lib.nc", 0); cv_true("success", run() == 0); int id; nc_open("out.nc", NC_NOWRITE, &id); head(id, 1, 0, 0, TYPE[t], zs[0]); nc_close(id);
}
/* requests that cannot be answered */
void H_ssyn_refused(void)
{
    static const char *K[][4] = {{"-S1", "-X1/1/1"}, {"-S1", "-Y1/1/1"}, {"-S1", "-Qpts", "-X1/1/1", "-Y1/1/1"}, {"-S1", "-Qpts", "-Dr0.5"}, {"-S1", "-M1/2/3", "-F1/2/3"}, {"-S1", "-M1/2/3", "-T1/2/3/4/5/6"}, {"-S1", "-F1/2/3", "-T1/2/3/4/5/6"}, {"-M1/2/3"}, {0},
        {"-S1", "-Cff.inp"}, {"-Cff.inp", "-M1/2/3"}, {"-Cff.inp"}, {"-S1", "-Ds-1"}, {"-S1", "-Dr-1"}, {"-S1", "-Ds2.9"}, {"-S1", "-Ds3.1"}, {"-S1", "-Dr0.4"}, {"-S1", "-Dr0.6"}, {"-S1", "-M361/1/1"}, {"-S1", "-M1/91/1"}, {"-S1", "-M1/2/181"}, {"-S1", "-M1"}, {"-S1", "-F1/2"}, {"-S1", "-T1/2/3/4/5"},
        {"-S1", "-e"}, {"-S1", "-X1/2/0", "-Y1/1/1"}, {"-S1", "-X2/1/1", "-Y1/1/1"}, {"-Sx"}, {"-S1", "-Qnone"}, {"-S1", "-Dx1"}, {"-S1", "-X1/2", "-Y1/1/1"}, {"-S1", "-X1/2/1", "-Y1/2/-1"}, {"-S1", "-Qdeep"}};
    int k = cv_choose("case", 35); start(); upar = 0; geometry(4); depths1(); library("lib.nc", 0); FILE *p = fopen("pts", "w"); fprintf(p, "0 2 0.5\n"); fclose(p); p = fopen("deep", "w"); fprintf(p, "0 2 0.5\n0 2 0.75\n"); fclose(p);
    p = fopen("ff.inp", "w"); fprintf(p, "h\nh\n1 0 0 0 1 100 1 0 90 2 3\n"); fclose(p);
    if (k < 33) { for (int i = 0; i < 4 && K[k][i]; i++) strcpy(arg(), K[k][i]); } else { nopt = 0; strcpy(arg(), k == 33 ? "-Gnone.nc" : "-Glib.nc"); if (k == 33) strcpy(arg(), "-Oout.nc"); strcpy(arg(), "-S1"); }
    cv_must_exit("invalid request is refused"); run();
}
/* several depths in the library: the depth must be given */
void H_ssyn_depth_required(void)
{
    int two = cv_choose("which", 2); start(); upar = 0; geometry(4); depths1(); if (two) { ndr = 2; zr[1] = 1; } else { nds = 2; zs[1] = 4; } library("lib.nc", 0); strcpy(arg(), "-S1"); if (cv_choose("other", 2)) strcpy(arg(), two ? "-Ds3" : "-Dr0.5"); cv_must_exit("missing depth is refused"); run();
}
/* ---- the library file */
void H_library_roundtrip(void)
{
    cv_fs(); geometry(cv_choose("geometry", 3)); nds = cv_size("source_depths", 1, 2, 2); ndr = cv_size("receiver_depths", 1, 2, 2); upar = cv_choose("derivatives", 2); for (int i = 0; i < ND; i++) { zs[i] = 1 + i; zr[i] = i; } library("lib.nc", 63);
    STGRNLIB *l = grt_stgrnlib_load_nc("lib.nc"); cv_true("sizes", l->ndepsrc == (size_t)nds && l->ndeprcv == (size_t)ndr && l->nnorth == (size_t)nn && l->neast == (size_t)ne && l->nr == (size_t)nr && l->calc_upar == upar && l->nlayer == 2);
    for (int i = 0; i < nds; i++) { cv_eq("source depth", l->depsrcs[i], zs[i]); cv_eq("source Vp", l->src_va[i], sva[i]); cv_eq("source Vs", l->src_vb[i], svb[i]); cv_eq("source density", l->src_rho[i], srho[i]); }
    for (int i = 0; i < ndr; i++) { cv_eq("receiver depth", l->deprcvs[i], zr[i]); cv_eq("receiver Vp", l->rcv_va[i], 1); cv_eq("receiver Vs", l->rcv_vb[i], 2); cv_eq("receiver density", l->rcv_rho[i], 3); }
    for (int i = 0; i < nn; i++) cv_eq("north", l->norths[i], gn[i]); for (int i = 0; i < ne; i++) cv_eq("east", l->easts[i], ge[i]);
    for (int p = 0; p < nr; p++) { cv_eq("distance", l->rs[p], rs[p]); cv_eq("sorted distance", l->sort_rs[p], rs[order[p]]); cv_true("index of the sorted distance", l->sort_rs_idx[p] == (size_t)order[p]); }
    cv_eq("model", l->modarr[0][0], 1.5); cv_eq("model", l->modarr[0][5], 50); cv_eq("model", l->modarr[1][1], 6); cv_eq("model", l->modarr[1][4], 200); cv_true("derivative arrays", upar ? l->uiz && l->uir : !l->uiz && !l->uir);
    for (int i = 0; i < nds; i++) for (int j = 0; j < ndr; j++) for (int p = 0; p < nr; p++) for (int s = 0; s < NS; s++) for (int c = 0; c < 3; c++) {
        int z = zeroT(s, c); cv_eq("displacement", l->u[i][j][p][s][c], z ? 0 : G[0][i][j][p][s][c]);
        if (upar) { cv_eq("depth derivative", l->uiz[i][j][p][s][c], z ? 0 : G[1][i][j][p][s][c]); cv_eq("distance derivative", l->uir[i][j][p][s][c], z ? 0 : G[2][i][j][p][s][c]); }
    }
    grt_stgrnlib_free(l);
}
/* any horizontal grid: distances in grid order and in ascending order, equal spacing only if every distance is where equal spacing puts it */
/*@cv maxpaths=20000 */
void H_library_distances(void)
{
    real_t x[3], y[4], d[1] = {1}; int a = cv_size("nnorth", 1, 2, 2), b = cv_size("neast", 1, 2, 3); x[0] = cv_real("north", -3, 3); for (int i = 1; i < a; i++) x[i] = x[i - 1] + cv_pos("dn", 0.1, 2); y[0] = cv_real("east", -3, 3); for (int i = 1; i < b; i++) y[i] = y[i - 1] + cv_pos("de", 0.1, 2);
    STGRNLIB *l = grt_stgrnlib_alloc(1, d, 1, d, a, x, b, y, 0); int n = a*b, seen[8] = {0}; cv_true("number of distances", l->nr == (size_t)n);
    for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) cv_eq("distance", l->rs[i*b + j], hypot(x[i], y[j]));
    for (int p = 0; p < n; p++) { cv_true("index range", l->sort_rs_idx[p] < (size_t)n); if (l->sort_rs_idx[p] >= (size_t)n) return; seen[l->sort_rs_idx[p]]++; cv_eq("sorted distance", l->sort_rs[p], l->rs[l->sort_rs_idx[p]]); if (p) cv_le("ascending", l->sort_rs[p - 1], l->sort_rs[p]); }
    for (int p = 0; p < n; p++) cv_true("permutation", seen[p] == 1);
}
/*@cv native=1 concint=1 */
void H_library_nearly_uniform(void)
{
    /* distances that are almost, but not exactly, equally spaced: the field is interpolated between the true neighbours */
    static const real_t Q[6][8] = {{0.0001, 0.0002, 0.0010, 0.0015}, {1, 2, 3.0005, 4.002, 5.004, 6.007, 7.0105, 8.015}, {0, 1, 2, 3, 4, 5, 6, 7}, {1, 1.0005, 1.0015, 1.0016}, {10, 11, 12, 13.0009, 14.0027, 15.0054}, {5, 5.25, 5.5, 5.75}}; static const int N[6] = {4, 8, 8, 4, 6, 4};
    int k = cv_choose("case", 6), n = N[k], i = cv_choose("interval", 7); if (i + 1 >= n) cv_assume(0); real_t z = 1, w = 0.25*cv_choose("part", 4) + 0.1, r = (1 - w)*Q[k][i] + w*Q[k][i + 1], *y = (real_t *)Q[k]; start(); cv_tol(1e-6, 1e-9);
    STGRNLIB *l = grt_stgrnlib_alloc(1, &z, 1, &z, 1, N0, n, y, 0); real_t mod[1][GRT_MODARR_NCOL] = {{0, 6, 3.5, 2.75, 200, 100}}; grt_stgrnlib_set_modarr(l, 1, mod); l->src_va[0] = 6; l->src_vb[0] = 3.5; l->src_rho[0] = 2.75; for (int p = 0; p < n; p++) l->u[0][0][p][0][1] = p*p*p - 7.0*p*p + 3; grt_stgrnlib_save_nc(l, "lib.nc");
    strcpy(arg(), "-S1e20"); sprintf(arg(), "-Y%.17g/%.17g/1", r, r); strcpy(arg(), "-X0/0/1"); cv_true("success", run() == 0); real_t x[1]; rvar("R", 1, x);
    real_t f0 = i*i*i - 7.0*i*i + 3, f1 = (i + 1)*(i + 1)*(i + 1) - 7.0*(i + 1)*(i + 1) + 3; cv_eq("interpolation between the neighbouring distances", x[0], (1 - w)*f0 + w*f1);
}
void H_library_subfault(void)
{
    real_t d[3], y[3], one[1] = {1}; int a = cv_size("depths", 1, 2, 3), b = cv_size("distances", 1, 2, 3); d[0] = cv_pos("depth", 1, 2); y[0] = cv_pos("distance", 1, 2); for (int i = 1; i < 3; i++) { d[i] = d[i - 1] + cv_pos("dd", 0.1, 2); y[i] = y[i - 1] + cv_pos("dy", 0.1, 2); cv_assume_lt(1e-8, d[i] - d[i - 1]); cv_assume_lt(1e-8, y[i] - y[i - 1]); }
    STGRNLIB *l = grt_stgrnlib_alloc(a, d, 1, one, 1, N0, b, y, 0); if (a == 1 && b == 1) cv_must_exit("no spacing to infer a size from"); real_t s = grt_stgrnlib_default_subfault_size(l); int hit = 0;
    for (int i = 1; i < a; i++) { cv_le("not above a depth spacing", s, d[i] - d[i - 1]); if (s == d[i] - d[i - 1]) hit = 1; } for (int i = 1; i < b; i++) { cv_le("not above a distance spacing", s, y[i] - y[i - 1]); if (s == y[i] - y[i - 1]) hit = 1; }
    cv_true("one of the spacings", hit);
}
/* repeated distances do not give a zero size */
void H_library_subfault_repeated(void) { real_t z[1] = {1}, x[2] = {-1, 1}, y[2] = {0, 2}; STGRNLIB *l = grt_stgrnlib_alloc(1, z, 1, z, 2, x, 2, y, 0); cv_tol(1e-9, 1e-9); cv_eq("smallest positive spacing", grt_stgrnlib_default_subfault_size(l), sqrt((real_t)5) - 1); }
void H_library_refused(void)
{
    real_t a[2] = {1, 2}, d[2] = {2, 1}, e[2] = {1, 1}; int k = cv_choose("case", 14); cv_must_exit("invalid library refused");
    if (k < 8) { const real_t *v[4] = {a, a, a, a}; v[k%4] = k < 4 ? d : e; grt_stgrnlib_alloc(2, v[0], 2, v[1], 2, v[2], 2, v[3], 0); }
    else if (k < 12) { size_t n[4] = {2, 2, 2, 2}; n[k - 8] = 0; grt_stgrnlib_alloc(n[0], a, n[1], a, n[2], a, n[3], a, 0); }
    else if (k == 12) { STGRNLIB *l = grt_stgrnlib_alloc(2, a, 2, a, 2, a, 2, a, 0); cv_fs(); grt_stgrnlib_save_nc(l, "x.nc"); } else { cv_fs(); grt_stgrnlib_load_nc("none.nc"); }
}
