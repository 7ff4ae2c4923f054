/* P21: the okada command hands Okada's solution (contracts below; the solution itself is specified in p_okada.c) the medium, the source and the
 * receiver in fault coordinates, and writes the sum over the sources in geographic or radial components, in cm and cm/cm. */
/*@cvfile wrap=grt_okada_dc3d0,grt_okada_dc3d */
#include "cv.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#include <netcdf.h>
#include "grt/common/const.h"
int okada_main(int argc, char **argv);
#define NF 2
#define NP 6
typedef struct { real_t u[3], g[3][3]; } FIELD;
static struct { int point; real_t n0, e0, strike, top, dip, al1, al2, aw1, aw2, s[4]; } F[NF];      /* reference point: top edge, or the point source */
static real_t vp, vs, rho, P[NP][3], V[NF][NP][12], unit; static int nf, np, bygrid, bad, ncall; static const real_t SHIFT = 1e-4;
static real_t d2r(real_t x) { return x*PI/180; }
static int call(int point, real_t alpha, real_t x, real_t y, real_t z, real_t dep, real_t dip, real_t u[3], real_t up[3][3])
{
    int f = 0, k = -1; if (nf == 2 && fabs(dep - F[1].top) < 1e-6) f = 1;
    for (int i = 0; i < np; i++) if (bygrid ? fabs(x - P[i][0]) < 1e-6 && fabs(y + P[i][1]) < 1e-6 : fabs(-z - P[i][2]) < 1e-6) k = i;
    cv_true("a requested receiver", k >= 0); if (k < 0) k = 0; cv_true("kind of source", point == F[f].point); int again = bad && ncall; ncall++;
    real_t dn = P[k][0] - F[f].n0, de = P[k][1] - F[f].e0, c = cos(d2r(F[f].strike)), s = sin(d2r(F[f].strike));
    cv_eq("alpha = (lambda+mu)/(lambda+2mu)", alpha, (vp*vp - vs*vs)/(vp*vp)); cv_eq("along strike", x, dn*c + de*s + (again ? SHIFT : 0)); cv_eq("up dip", y, dn*s - de*c); cv_eq("receiver height", z, -P[k][2]); cv_eq("source depth", dep, F[f].top); cv_eq("dip", dip, F[f].dip);
    for (int i = 0; i < 3; i++) { u[i] = V[f][k][i]; for (int j = 0; j < 3; j++) up[j][i] = V[f][k][3 + 3*j + i]; }
    if (bad == 2 || bad == 1 && !again) { for (int i = 0; i < 3; i++) { u[i] = 0; for (int j = 0; j < 3; j++) up[j][i] = 0; } return 1; }
    return 0;
}
int contract__grt_okada_dc3d0(real_t alpha, real_t x, real_t y, real_t z, real_t dep, real_t dip, real_t p1, real_t p2, real_t p3, real_t p4, real_t u[3], real_t up[3][3])
{
    int f = nf == 2 && fabs(dep - F[1].top) < 1e-6; real_t p[4] = {p1, p2, p3, p4}; for (int i = 0; i < 4; i++) cv_eq("potency", p[i]/unit, F[f].s[i]/unit);
    return call(1, alpha, x, y, z, dep, dip, u, up);
}
int contract__grt_okada_dc3d(real_t alpha, real_t x, real_t y, real_t z, real_t dep, real_t dip, real_t a1, real_t a2, real_t w1, real_t w2, real_t s1, real_t s2, real_t s3, real_t u[3], real_t up[3][3])
{
    int f = nf == 2 && fabs(dep - F[1].top) < 1e-6; real_t p[3] = {s1, s2, s3}; for (int i = 0; i < 3; i++) cv_eq("slip in cm", p[i], F[f].s[i]);
    cv_eq("begin along strike", a1, F[f].al1); cv_eq("end along strike", a2, F[f].al2); cv_eq("lower edge", w1, F[f].aw1); cv_eq("upper edge", w2, F[f].aw2);
    return call(0, alpha, x, y, z, dep, dip, u, up);
}
static char opt[20][200]; static int nopt;
static char *arg(void) { return opt[nopt++]; }
static int run(void) { char *av[24]; int n = 0; av[n++] = "okada"; for (int i = 0; i < nopt; i++) av[n++] = opt[i]; av[n] = 0; cv_getopt_reset(); return okada_main(n, av); }
static int cart, der;
static void start(void)
{
    cv_fs(); cv_stdout("log"); cv_tol(1e-8, 1e-9); nopt = 0; bygrid = bad = ncall = 0; nf = 1; memset(F, 0, sizeof F); unit = 1e15; strcpy(arg(), "-Oout.nc"); strcpy(arg(), "-s"); cart = cv_choose("cartesian", 2); der = cv_choose("derivatives", 2); if (cart) strcpy(arg(), "-N"); if (der) strcpy(arg(), "-e");
    vp = cv_pos("vp", 5, 8); vs = cv_pos("vs", 2, 4); rho = cv_pos("rho", 2, 3); cv_assume_lt(vs, vp); sprintf(arg(), "-I%.17g/%.17g/%.17g", vp, vs, rho);
}
static void values(void) { for (int f = 0; f < nf; f++) for (int k = 0; k < np; k++) for (int i = 0; i < 12; i++) V[f][k][i] = cv_real("solution", -2, 2); }
static void points(int geom) { FILE *p = fopen("pts", "w"); for (int i = 0; i < np; i++) { fprintf(p, "%.17g %.17g %.17g", P[i][0], P[i][1], P[i][2]); if (geom) fprintf(p, " %d %d %d", 10*i, 20*i, 30*i); fprintf(p, "\n"); } fclose(p); strcpy(arg(), "-Qpts"); values(); }
static void somewhere(void) { np = 2; P[0][2] = 0; P[1][2] = 0.5; P[0][0] = cv_real("north", -6, 6); P[0][1] = cv_real("east", -6, 6); cv_assume_lt(1e-7, hypot(P[0][0], P[0][1])); P[1][0] = P[1][1] = 0; }
/* specification of the output */
static void field(FIELD *o, int k)
{
    memset(o, 0, sizeof *o);
    for (int f = 0; f < nf; f++) if (bad != 2) {
        real_t c = cos(d2r(F[f].strike)), s = sin(d2r(F[f].strike)), A[3][3] = {{0, 0, 1}, {c, s, 0}, {s, -c, 0}}, a = F[f].point ? 1e-10 : 1, b = F[f].point ? 1e-15 : 1e-5; const real_t *v = V[f][k];
        for (int i = 0; i < 3; i++) { for (int x = 0; x < 3; x++) o->u[i] += a*A[i][x]*v[x]; for (int d = 0; d < 3; d++) for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) o->g[d][i] += b*A[d][x]*A[i][y]*v[3 + 3*x + y]; }
    }
    if (cart) return;
    real_t n = P[k][0], e = P[k][1], r = hypot(n, e), Q[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}; if (k != 1 || bygrid) if (r > 0) { Q[1][1] = n/r; Q[1][2] = e/r; Q[2][1] = -e/r; Q[2][2] = n/r; } FIELD w = *o;
    for (int i = 0; i < 3; i++) { o->u[i] = 0; for (int x = 0; x < 3; x++) o->u[i] += Q[i][x]*w.u[x]; for (int d = 0; d < 3; d++) { o->g[d][i] = 0; for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) o->g[d][i] += Q[d][x]*Q[i][y]*w.g[x][y]; } }
    if (k == 1 && !bygrid || r == 0) { o->g[2][1] += o->g[1][2]; o->g[2][2] -= o->g[1][1]; return; }      /* at the epicentre u/r stands for the radial derivative, as in the static synthesis and the tensor commands */
    o->g[2][1] += o->u[2]/(r*1e5); o->g[2][2] -= o->u[1]/(r*1e5);
}
static void rvar(const char *name, real_t *x, int n)
{
    int id, v, nd, dm[4]; size_t len, tot = 1; nc_open("out.nc", NC_NOWRITE, &id); cv_true("output variable present", nc_inq_varid(id, name, &v) == NC_NOERR);
    nc_inq_varndims(id, v, &nd); nc_inq_vardimid(id, v, dm); for (int i = 0; i < nd; i++) { nc_inq_dimlen(id, dm[i], &len); tot *= len; }
    cv_true("size of an output variable", tot == (size_t)n); if (tot == (size_t)n) nc_get_var_double(id, v, x); nc_close(id);
}
static real_t attr(int id, const char *k) { real_t v = -9; cv_true("attribute present", nc_get_att_double(id, NC_GLOBAL, k, &v) == NC_NOERR); return v; }
static void text(int id, const char *k, const char *want) { char s[64] = {0}; size_t n = 0; nc_inq_attlen(id, NC_GLOBAL, k, &n); cv_true("text attribute", n == strlen(want)); if (n < 64) { nc_get_att_text(id, NC_GLOBAL, k, s); cv_true("text attribute", !strcmp(s, want)); } }
static void check(const char *type)
{
    char p[8]; const char *ch = cart ? "ZNE" : "ZRT", *lo = cart ? "zne" : "zrt"; real_t x[NP]; FIELD f[NP]; real_t w = F[0].point ? 1e-10 : 1, wd = F[0].point ? 1e-15 : 1e-5; int id, v; cv_true("success", run() == 0);
    for (int k = 0; k < np; k++) field(&f[k], k);
    for (int c = 0; c < 3; c++) { sprintf(p, "%c", ch[c]); rvar(p, x, np); for (int k = 0; k < np; k++) cv_eq("displacement", x[k]/w, f[k].u[c]/w); if (der) for (int d = 0; d < 3; d++) { sprintf(p, "%c%c", lo[d], ch[c]); rvar(p, x, np); for (int k = 0; k < np; k++) cv_eq("derivative", x[k]/wd, f[k].g[d][c]/wd); } }
    nc_open("out.nc", NC_NOWRITE, &id); text(id, "computeType", type); text(id, "layout", bygrid ? "grid" : "points"); nc_get_att_int(id, NC_GLOBAL, "calc_upar", &v); cv_true("calc_upar", v == der); nc_get_att_int(id, NC_GLOBAL, "rot2ZNE", &v); cv_true("rot2ZNE", v == cart);
    cv_eq("mu", attr(id, "mu")/1e10, rho*vs*vs); cv_eq("lambda", attr(id, "lambda")/1e10, rho*(vp*vp - 2*vs*vs)); cv_eq("alpha", attr(id, "alpha"), 1 - vs*vs/(vp*vp)); if (strcmp(type, "FF")) cv_eq("source depth", attr(id, "depsrc"), F[0].top);
    cv_true("derivatives only on request", (nc_inq_varid(id, cart ? "zZ" : "rR", &v) == NC_NOERR) == der); nc_close(id);
}
static const char *source(int t)
{
    static const char *T[3] = {"EX", "TS", "DC"}; int mu = cv_choose("times_modulus", 2); real_t m0 = (mu ? 1e12 : 1e24)*cv_pos("M0", 0.5, 2), pot = mu ? m0 : m0/(rho*vs*vs*1e10), rake = 0; unit = mu ? 1e12 : 1e13; F[0].point = 1; sprintf(arg(), mu ? "-Su%.17g" : "-S%.17g", m0);
    F[0].top = cv_pos("source depth", 1, 9); sprintf(arg(), "-Ds%.17g", F[0].top);
    if (t) { F[0].strike = cv_real("strike", 0, 360); F[0].dip = cv_real("dip", 0, 90); cv_assume_le(0, F[0].strike); cv_assume_le(F[0].strike, 360); cv_assume_le(0, F[0].dip); cv_assume_le(F[0].dip, 90); }
    if (t == 1) sprintf(arg(), "-M%.17g/%.17g", F[0].strike, F[0].dip);
    if (t == 2) { rake = cv_real("rake", -180, 180); cv_assume_le(-180, rake); cv_assume_le(rake, 180); sprintf(arg(), "-M%.17g/%.17g/%.17g", F[0].strike, F[0].dip, rake); }
    if (t == 0) F[0].s[3] = pot; else if (t == 1) F[0].s[2] = pot; else { F[0].s[0] = pot*cos(d2r(rake)); F[0].s[1] = pot*sin(d2r(rake)); }
    return T[t];
}
/*@cv bounded=1 */
void H_okada_point(void) { start(); const char *t = source(cv_choose("mechanism", 3)); somewhere(); points(cv_choose("geometry", 2)); check(t); }
/* a receiver at the source is moved by 10 cm along strike; if that does not help either it gets no contribution */
/*@cv bounded=1 */
void H_okada_point_singular(void) { start(); bad = 1 + cv_choose("twice", 2); const char *t = source(2); somewhere(); np = 1; points(0); check(t); cv_true("one more attempt", ncall == 2); }
/*@cv bounded=1 */
void H_okada_grid(void)
{
    start(); const char *t = source(0); real_t x[3]; real_t z = cv_pos("receiver depth", 0.1, 3); bygrid = 1; np = 6; for (int i = 0; i < 6; i++) { P[i][0] = 3*(i/3); P[i][1] = -1 + 2.5*(i%3); P[i][2] = z; }
    strcpy(arg(), "-X0/3/3"); strcpy(arg(), "-Y-1/4/2.5"); sprintf(arg(), "-Dr%.17g", z); values(); check(t);
    rvar("north", x, 2); for (int i = 0; i < 2; i++) cv_eq("north axis", x[i], 3*i); rvar("east", x, 3); for (int i = 0; i < 3; i++) cv_eq("east axis", x[i], -1 + 2.5*i); int id; nc_open("out.nc", NC_NOWRITE, &id);
    cv_eq("receiver depth", attr(id, "deprcv"), z); cv_eq("receiver Vp", attr(id, "rcv_va"), vp); cv_eq("receiver Vs", attr(id, "rcv_vb"), vs); cv_eq("receiver density", attr(id, "rcv_rho"), rho); nc_close(id);
}
static const unsigned KODE[5] = {100, 200, 300, 400, 500};
static void rectangle(FILE *p, int i, unsigned kode, int any)
{
    real_t e0 = 0.5, n0 = -1, de = 3, dn = 4, top = 1 + i, bot = 3 + 2*i, dip = i ? 30 : 60, a = cv_real("column7", -2, 2), b = cv_real("column8", -2, 2); cv_assume_ne(a, 0); cv_assume_ne(b, 0);
    if (any) { e0 = cv_real("e0", -3, 3); n0 = cv_real("n0", -3, 3); de = cv_real("de", -3, 3); dn = cv_real("dn", -3, 3); cv_assume_lt(1e-6, hypot(de, dn)); dip = cv_real("dip", 1, 90); cv_assume_lt(0, dip); cv_assume_le(dip, 90); cv_assume_lt(1e-6, sin(d2r(dip))); top = cv_pos("top", 0.5, 2); bot = top + cv_pos("height", 0.5, 3); }
    real_t L = hypot(de, dn), W = (bot - top)/sin(d2r(dip));
    fprintf(p, "%d %.17g %.17g %.17g %.17g %u %.17g %.17g %.17g %.17g %.17g\n", i + 1, e0, n0, e0 + de, n0 + dn, kode, a, b, dip, top, bot);
    F[i].point = kode >= 400; F[i].strike = atan2(de, dn)*180/PI; F[i].dip = dip; F[i].top = F[i].point ? (top + bot)/2 : top; F[i].n0 = n0 + dn/2; F[i].e0 = e0 + de/2; F[i].al1 = -L/2; F[i].al2 = L/2; F[i].aw1 = -W; F[i].aw2 = 0;
    if (F[i].point) { F[i].n0 -= W/2*cos(d2r(dip))*de/L; F[i].e0 += W/2*cos(d2r(dip))*dn/L; }      /* the plane dips to the right of the strike */
    unit = 1e6; switch (kode) { case 100: F[i].s[0] = -100*a; F[i].s[1] = 100*b; break; case 200: F[i].s[0] = -100*a; F[i].s[2] = 100*b; break; case 300: F[i].s[2] = 100*a; F[i].s[1] = 100*b; break; case 400: F[i].s[0] = -1e6*a; F[i].s[1] = 1e6*b; break; default: F[i].s[2] = 1e6*a; F[i].s[3] = 1e6*b; }
}
static FILE *faults(void) { FILE *p = fopen("ff.inp", "w"); fprintf(p, "#\nx\n"); strcpy(arg(), "-Cff.inp"); return p; }
/*@cv bounded=1 */
void H_okada_fault(void) { start(); FILE *p = faults(); rectangle(p, 0, KODE[cv_choose("kode", 5)], 1); fclose(p); somewhere(); np = 1; points(0); check("FF"); }
/*@cv bounded=1 */
void H_okada_faults(void) { start(); FILE *p = faults(); nf = 2; rectangle(p, 0, KODE[cv_choose("kode", 3)], 0); rectangle(p, 1, 100, 0); fclose(p); somewhere(); points(0); check("FF"); }
/*@cv bounded=1 */
void H_okada_refused(void)
{
    static const char *K[][7] = {{"-S1e20", "-Ds3", "-Qp", "-Oo"}, {"-I6/3.5", "-S1e20", "-Ds3", "-Qp", "-Oo"}, {"-I6/3.5/2.7/1", "-S1e20", "-Ds3", "-Qp", "-Oo"}, {"-I6/3.5/2.7", "-S1e20", "-Ds3", "-Qp"}, {"-I6/3.5/2.7", "-S1e20", "-Qp", "-Oo"}, {"-I6/3.5/2.7", "-M1/2/3", "-Ds3", "-Qp", "-Oo"}, {"-I6/3.5/2.7", "-Ds3", "-Qp", "-Oo"},
        {"-I6/3.5/2.7", "-S1e20", "-Ds3", "-Qp", "-Oo", "-Cff.inp"}, {"-I6/3.5/2.7", "-Ds3", "-Qp", "-Oo", "-Cff.inp"}, {"-I6/3.5/2.7", "-Qp", "-Oo", "-Cff.inp+i1/1"}, {"-I6/3.5/2.7", "-S1e20", "-Ds3", "-Qp", "-Oo", "-Dr0"}, {"-I6/3.5/2.7", "-S1e20", "-Ds3", "-Qp", "-Oo", "-X0/1/1", "-Y0/1/1"}, {"-I6/3.5/2.7", "-S1e20", "-Ds3", "-Oo", "-X0/1/1", "-Dr0"}, {"-I6/3.5/2.7", "-S1e20", "-Ds3", "-Oo", "-X0/1/1", "-Y0/1/1"},
        {"-I6/3.5/2.7", "-S1e20", "-Ds-3", "-Qp", "-Oo"}, {"-I6/3.5/2.7", "-S1e20", "-Ds3", "-X0/1/1", "-Y0/1/1", "-Dr-1", "-Oo"}, {"-I6/3.5/2.7", "-S1e20", "-Ds3", "-X0/1/0", "-Y0/1/1", "-Dr1", "-Oo"}, {"-I6/3.5/2.7", "-S1e20", "-Ds3", "-X0/1/1", "-Y2/1/1", "-Dr1", "-Oo"}, {"-I6/3.5/2.7", "-S1e20", "-Ds3", "-Qp", "-Oo", "-M400/20/30"}, {"-I6/3.5/2.7", "-S1e20", "-Ds3", "-Qp", "-Oo", "-M40/95/30"}, {"-I6/3.5/2.7", "-S1e20", "-Ds3", "-Qp", "-Oo", "-M40/20/300"},
        {"-I6/3.5/2.7", "-S1e20", "-Ds3", "-Qp", "-Oo", "-M40"}, {"-I6/3.5/2.7", "-Su", "-Ds3", "-Qp", "-Oo"}, {"-I6/3.5/2.7", "-S1e20", "-Dx3", "-Qp", "-Oo"}, {"-I6/3.5/2.7", "-S1e20", "-Ds3", "-Qnone", "-Oo"}, {"-I6/3.5/2.7", "-Cnone", "-Qp", "-Oo"}};
    cv_fs(); nopt = 0; np = 1; FILE *p = fopen("p", "w"); fprintf(p, "1 2 0\n"); fclose(p); p = fopen("ff.inp", "w"); fprintf(p, "#\nx\n1 0 0 0 1 100 1 0 90 2 3\n"); fclose(p); int k = cv_choose("case", 26); strcpy(arg(), "-s"); for (int i = 0; i < 7; i++) if (K[k][i]) strcpy(arg(), K[k][i]);
    cv_must_exit("invalid request refused"); run();
}
/* a receiver at which the solution of a fault does not exist is an error, not a wrong number */
/*@cv bounded=1 */
void H_okada_fault_singular(void) { start(); FILE *p = faults(); rectangle(p, 0, 100, 0); fclose(p); somewhere(); np = 1; points(0); bad = 2; cv_must_exit("singular fault receiver refused"); run(); }
