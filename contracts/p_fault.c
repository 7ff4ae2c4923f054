/* P16: finite faults in Coulomb format: reading, geometry, subdivision into point sources, static synthesis. */
#include "cv.h"
#include "ssyn.h"
#include "grt/common/finite_fault.h"
static const unsigned KODE[5] = {100, 200, 300, 400, 500};
static real_t d2r(real_t x) { return x*DEG; }
/* strike from the two ends of the surface projection, rake from the slip components (right-lateral = 180), net slip */
static void derived(const FINITE_FAULT *f, real_t rl, real_t rev)
{
    real_t de = f->east_end - f->east_begin, dn = f->north_end - f->north_begin, L = hypot(dn, de), s = hypot(rl, rev);
    cv_eq("strike", L*sin(d2r(f->strike)), de); cv_eq("strike", L*cos(d2r(f->strike)), dn);
    if (f->kode == 500) { cv_eq("no rake", f->rake, 0); cv_eq("no slip", f->slip, 0); return; }
    cv_eq("net slip", f->slip, f->kode == 400 ? 0 : s); cv_eq("rake", s*cos(d2r(f->rake)), -rl); cv_eq("rake", s*sin(d2r(f->rake)), rev);
}
static void any(FINITE_FAULT *f, unsigned kode)
{
    memset(f, 0, sizeof *f); f->kode = kode; f->east_begin = cv_real("e0", -3, 3); f->north_begin = cv_real("n0", -3, 3); f->east_end = cv_real("e1", -3, 3); f->north_end = cv_real("n1", -3, 3); cv_assume_lt(1e-6, hypot(f->east_end - f->east_begin, f->north_end - f->north_begin));
    f->dip = cv_real("dip", 1, 90); cv_assume_lt(0, f->dip); cv_assume_le(f->dip, 90); f->top = cv_real("top", 0, 2); f->bot = f->top + cv_pos("height", 0.5, 3);
}
void H_fault_derived(void)
{
    FINITE_FAULT f; cv_tol(1e-7, 1e-7); any(&f, KODE[cv_choose("kode", 5)]); f.right_lateral = cv_real("right_lateral", -2, 2); f.reverse = cv_real("reverse", -2, 2); f.tensile = cv_real("tensile", -2, 2); f.inflate = cv_real("inflate", -2, 2);
    if (cv_choose("no_shear", 2)) f.right_lateral = f.reverse = 0; else { cv_assume_ne(f.right_lateral, 0); cv_assume_ne(f.reverse, 0); cv_assume_lt(1e-6, hypot(f.right_lateral, f.reverse)); }
    grt_finite_fault_set_derived(&f); derived(&f, f.right_lateral, f.reverse);
}
/* ---- files */
static void header(FILE *p) { fprintf(p, "  #   X-start    Y-start     X-fin      Y-fin   Kode  rt.lat    reverse   dip angle     top      bot\n"); fprintf(p, "xxx xxxxxxxxxx xxxxxxxxxx\n"); }
void H_fault_file(void)
{
    int n = cv_size("faults", 1, 2, 3), inr = cv_choose("rake_format", 2); FINITE_FAULT f[3]; cv_fs(); cv_tol(1e-7, 1e-7); const char *path = inr ? "f.inr" : "f.inp"; FILE *p = fopen(path, "w"); header(p);
    for (int i = 0; i < n; i++) {
        any(&f[i], inr ? 100 : KODE[cv_choose("kode", 5)]); f[i].value1 = cv_real("column7", -2, 2); f[i].value2 = cv_real("column8", 0.1, 2); if (!inr) { cv_assume_ne(f[i].value1, 0); cv_assume_ne(f[i].value2, 0); } else cv_assume_lt(1e-3, f[i].value2);
        fprintf(p, "%d %.17g %.17g %.17g %.17g %u %.17g %.17g %.17g %.17g %.17g trailing words\n", i + 1, f[i].east_begin, f[i].north_begin, f[i].east_end, f[i].north_end, f[i].kode, f[i].value1, f[i].value2, f[i].dip, f[i].top, f[i].bot);
    }
    fclose(p); size_t m = 0; FINITE_FAULT *g = grt_finite_fault_load_coulomb(path, &m); cv_true("number of faults", m == (size_t)n);
    for (int i = 0; i < n && i < (int)m; i++) {
        real_t a = f[i].value1, b = f[i].value2, w[4] = {0}; /* right-lateral, reverse, tensile, inflation */
        switch (f[i].kode) { case 100: if (inr) { w[0] = -b*cos(d2r(a)); w[1] = b*sin(d2r(a)); } else { w[0] = a; w[1] = b; } break; case 200: w[0] = a; w[2] = b; break; case 300: w[2] = a; w[1] = b; break; case 400: w[0] = a; w[1] = b; break; default: w[2] = a; w[3] = b; }
        cv_true("kind", g[i].kode == f[i].kode); cv_eq("start", g[i].east_begin, f[i].east_begin); cv_eq("start", g[i].north_begin, f[i].north_begin); cv_eq("end", g[i].east_end, f[i].east_end); cv_eq("end", g[i].north_end, f[i].north_end);
        cv_eq("right-lateral", g[i].right_lateral, w[0]); cv_eq("reverse", g[i].reverse, w[1]); cv_eq("tensile", g[i].tensile, w[2]); cv_eq("inflation", g[i].inflate, w[3]); cv_eq("dip", g[i].dip, f[i].dip); cv_eq("top", g[i].top, f[i].top); cv_eq("bottom", g[i].bot, f[i].bot);
        derived(&g[i], w[0], w[1]);
    }
}
void H_fault_file_refused(void)
{
    static const char *K[] = {"1 0 0 0 0 100 1 0 90 2 3\n", "1 0 0 0 1 100 1 0 0 2 3\n", "1 0 0 0 1 100 1 0 90.5 2 3\n", "1 0 0 0 1 100 1 0 -10 2 3\n", "1 0 0 0 1 100 1 0 90 3 3\n", "1 0 0 0 1 100 1 0 90 4 3\n", "1 0 0 0 1 600 1 0 90 2 3\n", "1 0 0 0 1 100.5 1 0 90 2 3\n", "1 0 0 0 1 -100 1 0 90 2 3\n",
        "1 0 0 0 1 100 1 0 90 2\n", "1 0 0 0 1 100 1 x 90 2 3\n", "", "1 0 0 0 1 100 1 0 90 2 3\n1 0 0 0 1 100 1 0 90 2\n"};
    int k = cv_choose("case", 19); cv_fs(); FILE *p = fopen(k == 13 || k == 14 ? "f.inr" : "f.inp", "w"); size_t n; cv_must_exit("invalid fault file refused");
    if (k < 13) { header(p); fprintf(p, "%s", K[k]); } else if (k == 13) { header(p); fprintf(p, "1 0 0 0 1 200 1 0 90 2 3\n"); } else if (k == 14) { header(p); fprintf(p, "1 0 0 0 1 500 1 0 90 2 3\n"); } else if (k == 15) fprintf(p, "one header line\n");
    fclose(p); const char *path = k == 13 || k == 14 ? "f.inr" : "f.inp"; if (k == 16) path = "none"; if (k == 17) path = 0; grt_finite_fault_load_coulomb(path, k == 18 ? 0 : &n);
}
/* ---- subdivision: the pieces tile the fault plane exactly */
/*@cv maxpaths=4000 */
void H_fault_subdivision(void)
{
    FINITE_FAULT f; FINITE_SUBFAULT q; cv_tol(1e-7, 1e-7); any(&f, KODE[cv_choose("kode", 2)]); if (cv_choose("vertical", 2)) f.dip = 90; f.right_lateral = cv_real("right_lateral", -2, 2); f.reverse = cv_real("reverse", -2, 2); cv_assume_lt(1e-6, hypot(f.right_lateral, f.reverse)); grt_finite_fault_set_derived(&f);
    real_t de = f.east_end - f.east_begin, dn = f.north_end - f.north_begin, L0 = hypot(dn, de), sd = sin(d2r(f.dip)), cd = cos(d2r(f.dip)), L, W; cv_assume_lt(1e-3, sd); real_t W0 = (f.bot - f.top)/sd;
    int a = cv_size("along_dip", 1, 2, 3), b = cv_size("along_strike", 1, 2, 3); real_t dW = cv_pos("dW", 0.2, 4), dL = cv_pos("dL", 0.2, 4);
    cv_assume_lt((a - 1 + 1e-6)*dW, W0); cv_assume_lt(W0, (a - 1e-6)*dW); cv_assume_lt((b - 1 + 1e-6)*dL, L0); cv_assume_lt(L0, (b - 1e-6)*dL);
    size_t nW, nL; grt_finite_fault_subdiv(&f, dL, dW, &W, &L, &nW, &nL); cv_true("number along dip", nW == (size_t)a); cv_true("number along strike", nL == (size_t)b); cv_eq("width of the plane", W, W0); cv_eq("length of the plane", L, L0);
    real_t w0 = 0, slip = hypot(f.right_lateral, f.reverse);
    for (int i = 0; i < a; i++) {
        real_t l0 = 0, wi = 0;
        for (int j = 0; j < b; j++) {
            grt_finite_fault_subfault(&f, dL, dW, W, L, i, j, &q); wi = q.width; cv_lt("positive size", 0, q.width); cv_lt("positive size", 0, q.length); cv_le("at most the requested size", q.width, dW); cv_le("at most the requested size", q.length, dL);
            real_t w = w0 + q.width/2, l = l0 + q.length/2; l0 += q.length;
            cv_eq("depth of the centre", q.depsrc, f.top + w*sd); cv_eq("north of the centre", (q.north - f.north_begin)*L0, l*dn - w*cd*de); cv_eq("east of the centre", (q.east - f.east_begin)*L0, l*de + w*cd*dn); cv_eq("potency", q.potency*1e-12, slip*q.width*q.length);
        }
        cv_eq("pieces cover the length", l0, L0); w0 += wi;
    }
    cv_eq("pieces cover the width", w0, W0);
}
/*@cv native=1 concint=1 */
void H_fault_whole_pieces(void)
{
    /* lengths that are whole multiples of the piece up to rounding */
    static const real_t Z[6][3] = {{1, 1.3, 0.1}, {0, 0.3, 0.1}, {2, 2.7, 0.1}, {0.1, 0.7, 0.2}, {5, 6.1, 0.55}, {1, 4, 1}}; static const int N[6] = {3, 3, 7, 3, 2, 3}; int k = cv_choose("case", 6), e = cv_choose("along_strike", 2); cv_tol(1e-9, 1e-9);
    FINITE_FAULT f; FINITE_SUBFAULT q; memset(&f, 0, sizeof f); f.kode = 100; f.dip = 90; f.right_lateral = 1; if (e) { f.north_begin = Z[k][0]; f.north_end = Z[k][1]; f.bot = 1; } else { f.east_end = 1; f.top = Z[k][0]; f.bot = Z[k][1]; } grt_finite_fault_set_derived(&f);
    real_t W, L, s = 0; size_t nW, nL; grt_finite_fault_subdiv(&f, e ? Z[k][2] : 1, e ? 1 : Z[k][2], &W, &L, &nW, &nL); cv_true("number of pieces", (e ? nL : nW) == (size_t)N[k]);
    for (int i = 0; i < N[k]; i++) { grt_finite_fault_subfault(&f, e ? Z[k][2] : 1, e ? 1 : Z[k][2], W, L, e ? 0 : i, e ? i : 0, &q); cv_eq("whole piece", e ? q.length : q.width, Z[k][2]); s += q.potency; }
    cv_eq("total potency", s*1e-12, Z[k][1] - Z[k][0]);
}
void H_fault_subdivision_refused(void)
{
    FINITE_FAULT f; memset(&f, 0, sizeof f); f.kode = 100; f.east_end = 1; f.bot = 1; f.dip = 90; real_t W, L, dl = 1, dw = 1; size_t a, b; switch (cv_choose("case", 6)) { case 0: dl = 0; break; case 1: dw = -1; break; case 2: f.east_end = 0; break; case 3: f.bot = 0; break; case 4: f.dip = 0; break; default: f.dip = 91; } cv_must_exit("invalid subdivision refused"); grt_finite_fault_subdiv(&f, dl, dw, &W, &L, &a, &b);
}
/* ---- synthesis: the faults as the superposition of their pieces, each a point source of the library */
static void put(FILE *p, const FINITE_FAULT *f) { fprintf(p, "1 %.17g %.17g %.17g %.17g %u %.17g %.17g %.17g %.17g %.17g\n", f->east_begin, f->north_begin, f->east_end, f->north_end, f->kode, f->value1, f->value2, f->dip, f->top, f->bot); }
/* adds the field of one fault at (n, e, z) in Cartesian components */
static void superpose(FIELD *out, const FINITE_FAULT *f, real_t dL, real_t dW, real_t n, real_t e, real_t z, int der)
{
    real_t de = f->east_end - f->east_begin, dn = f->north_end - f->north_begin, L = hypot(dn, de), sd = sin(d2r(f->dip)), cd = cos(d2r(f->dip)), W = (f->bot - f->top)/sd, strike = atan2(de, dn)/DEG; int pt = f->kode >= 400; FIELD x;
    int nW = pt ? 1 : (int)ceil(W/dW - 1e-9), nL = pt ? 1 : (int)ceil(L/dL - 1e-9);
    for (int i = 0; i < nW; i++) for (int j = 0; j < nL; j++) {
        real_t w0 = i*dW, l0 = j*dL, w1 = i == nW - 1 ? W : w0 + dW, l1 = j == nL - 1 ? L : l0 + dL, w = (w0 + w1)/2, l = (l0 + l1)/2, area = pt ? 1e6 : (w1 - w0)*(l1 - l0)*1e12;
        real_t pn = f->north_begin + (l*dn - w*cd*de)/L, pe = f->east_begin + (l*de + w*cd*dn)/L, pz = f->top + w*sd, a = f->value1, b = f->value2, mech[GRT_MECHANISM_NUM] = {strike, f->dip};
        #define ADD(t, rake, amount) do { mech[2] = rake; point(&x, pz, z, n - pn, e - pe, t, (amount)*area, 1, mech, 1, der); add(out, 1, &x); } while (0)
        switch (f->kode) {   /* slip components: right-lateral has rake 180, reverse rake 90 */
        case 100: case 400: ADD(GRT_SYN_DC, 180, a); ADD(GRT_SYN_DC, 90, b); break;
        case 200: ADD(GRT_SYN_DC, 180, a); ADD(GRT_SYN_TS, 0, b); break;
        case 300: ADD(GRT_SYN_TS, 0, a); ADD(GRT_SYN_DC, 90, b); break;
        default: ADD(GRT_SYN_TS, 0, a); ADD(GRT_SYN_EX, 0, b);
        }
    }
}
static void to_ray(FIELD *f, real_t n, real_t e, int der)
{
    real_t r = hypot(n, e), a = r == 0 ? 0 : atan2(e, n), Q[3][3] = {{1, 0, 0}, {0, cos(a), sin(a)}, {0, -sin(a), cos(a)}}, v[3], H[3][3]; for (int c = 0; c < 3; c++) { v[c] = f->u[c]; for (int d = 0; d < 3; d++) H[d][c] = f->g[d][c]; }
    for (int c = 0; c < 3; c++) { f->u[c] = 0; for (int x = 0; x < 3; x++) f->u[c] += Q[c][x]*v[x]; for (int d = 0; d < 3; d++) { f->g[d][c] = 0; for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) f->g[d][c] += Q[d][x]*Q[c][y]*H[x][y]; } }
    if (der) { real_t ur = r == 0 ? f->g[1][1] : f->u[1]/(r*1e5), ut = r == 0 ? f->g[1][2] : f->u[2]/(r*1e5); if (r == 0) return; f->g[2][1] += ut; f->g[2][2] -= ur; }
}
static void ff(const FINITE_FAULT *f, int nf, real_t dL, real_t dW, int given, int cart, int der)
{
    static const real_t P[2][3] = {{0.5, 1.25, 0.5}, {-0.75, 0.5, 0.5}}; FIELD x[2]; FILE *p = fopen("ff.inp", "w"); header(p); for (int i = 0; i < nf; i++) put(p, &f[i]); fclose(p); p = fopen("pts", "w"); for (int i = 0; i < 2; i++) fprintf(p, "%.17g %.17g %.17g\n", P[i][0], P[i][1], P[i][2]); fclose(p);
    if (given) sprintf(arg(), "-Cff.inp+i%.17g/%.17g", dL, dW); else strcpy(arg(), "-Cff.inp"); if (cart) strcpy(arg(), "-N"); if (der) strcpy(arg(), "-e"); strcpy(arg(), "-Qpts"); library("lib.nc", 57); cv_true("success", run() == 0);
    for (int k = 0; k < 2; k++) { memset(&x[k], 0, sizeof x[k]); for (int i = 0; i < nf; i++) superpose(&x[k], &f[i], dL, dW, P[k][0], P[k][1], P[k][2], der); if (!cart) to_ray(&x[k], P[k][0], P[k][1], der); }
    real_t unit = 1e-20*(f->kode >= 400 ? 1e6 : 1e12)*1e10*svb[0]*svb[0]*srho[0]; check(2, x, unit, cart, der);
}
static void start(void) { cv_fs(); cv_tol(1e-6, 1e-6); nopt = 0; strcpy(arg(), "-Glib.nc"); strcpy(arg(), "-Oout.nc"); strcpy(arg(), "-s"); geometry(0); nds = 2; ndr = 1; zs[0] = 1; zs[1] = 3; zr[0] = 0.5; }
static const real_t GEO[3][7] = {{0, 0, 0, 1, 90, 1, 2}, {0.25, -0.5, 0.85, 0.3, 45, 1.25, 1.75}, {0.5, 0, -0.5, 0, 30, 1.5, 0}};  /* east, north, east, north, dip, top, bottom; heights and piece widths keep the distances free of nested roots */
static real_t piece_width(int g) { return g == 0 ? 1 : g == 1 ? 0.3*sqrt(2) : 2; }
static void set(FINITE_FAULT *f, unsigned kode, int g) { memset(f, 0, sizeof *f); f->kode = kode; f->east_begin = GEO[g][0]; f->north_begin = GEO[g][1]; f->east_end = GEO[g][2]; f->north_end = GEO[g][3]; f->dip = GEO[g][4]; f->top = GEO[g][5]; f->bot = g == 2 ? f->top + sqrt(3)/4 : GEO[g][6]; f->value1 = cv_real("column7", -2, 2); f->value2 = cv_real("column8", -2, 2); }
static void kode(unsigned k, int g)
{
    FINITE_FAULT f; int cart = cv_choose("cartesian", 2), der = cart ? 0 : cv_choose("derivatives", 2); start(); upar = der; set(&f, k, g);
    switch (cv_choose("components", 3)) { case 0: cv_assume_ne(f.value1, 0); cv_assume_ne(f.value2, 0); cv_assume_lt(1e-3, hypot(f.value1, f.value2)); break; case 1: f.value1 = 0; cv_assume_lt(1e-3, f.value2); break; default: f.value2 = 0; cv_assume_lt(1e-3, f.value1); }
    ff(&f, 1, g == 0 ? 1 : g == 1 ? 0.6 : 0.75, piece_width(g), 1, cart, der);
}
/*@cv replace=grt_set_source_radiation bounded=1 */
void H_fault_strike_reverse_vertical(void) { kode(100, 0); }
/*@cv replace=grt_set_source_radiation bounded=1 */
void H_fault_strike_reverse_dip45(void) { kode(100, 1); }
/*@cv replace=grt_set_source_radiation bounded=1 */
void H_fault_strike_reverse_dip30(void) { kode(100, 2); }
/*@cv replace=grt_set_source_radiation bounded=1 */
void H_fault_strike_tensile_vertical(void) { kode(200, 0); }
/*@cv replace=grt_set_source_radiation bounded=1 */
void H_fault_strike_tensile_dip45(void) { kode(200, 1); }
/*@cv replace=grt_set_source_radiation bounded=1 */
void H_fault_strike_tensile_dip30(void) { kode(200, 2); }
/*@cv replace=grt_set_source_radiation bounded=1 */
void H_fault_tensile_reverse_vertical(void) { kode(300, 0); }
/*@cv replace=grt_set_source_radiation bounded=1 */
void H_fault_tensile_reverse_dip45(void) { kode(300, 1); }
/*@cv replace=grt_set_source_radiation bounded=1 */
void H_fault_tensile_reverse_dip30(void) { kode(300, 2); }
/*@cv replace=grt_set_source_radiation bounded=1 */
void H_fault_point_shear(void) { kode(400, cv_choose("geometry", 3)); }
/*@cv replace=grt_set_source_radiation bounded=1 */
void H_fault_point_inflation(void) { kode(500, cv_choose("geometry", 3)); }
/* several faults add up; the default piece size is the library's finest spacing */
/*@cv replace=grt_set_source_radiation bounded=1 */
void H_fault_several(void)
{
    FINITE_FAULT f[2]; int cart = cv_choose("cartesian", 2), given = cv_choose("sizes_given", 2); start(); upar = 0; set(&f[0], 100, 0); set(&f[1], cv_choose("second", 2) ? 500 : 300, 2); for (int i = 0; i < 2; i++) { cv_assume_ne(f[i].value1, 0); cv_assume_ne(f[i].value2, 0); } cv_assume_lt(1e-3, hypot(f[0].value1, f[0].value2));
    ff(f, 2, given ? 2 : 1, given ? 0.3*sqrt(3) : 1, given, cart, 0);
}
void H_fault_syn_refused(void)
{
    static const char *K[] = {"-Cff.inp+i0/1", "-Cff.inp+i1/0", "-Cff.inp+i1", "-Cff.inp+x1/1", "-Cnone", "-Cff.inp", "-Cff.inp", "-Cff.inp", "-Cff.inp"}; int k = cv_choose("case", 9); start(); upar = 0; nds = k == 5 ? 1 : 2; library("lib.nc", 0); FILE *p = fopen("ff.inp", "w"); header(p); fprintf(p, k == 7 ? "1 0 0 0 1 100 1 0 90 2 3.5\n" : "1 0 0 0 1 100 1 0 90 1 2\n"); fclose(p);
    strcpy(arg(), K[k]); if (k == 6) strcpy(arg(), "-Ds2"); if (k == 8) { p = fopen("pts", "w"); fprintf(p, "0 1 0.75\n"); fclose(p); strcpy(arg(), "-Qpts"); } cv_must_exit("invalid request is refused"); run();
}
