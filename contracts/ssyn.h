/* Specification of static synthesis from a library: radiation of the source at the receiver azimuth times the library's
 * functions, linear interpolation in distance, source depth and receiver depth.  Shared by P15 (point sources) and P16 (finite faults). */
#pragma once
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <tgmath.h>
#include <netcdf.h>
#include "grt/common/const.h"
#include "grt/common/radiation.h"
#include "grt/static/stgrnlib.h"
#include "radspec.h"
int static_syn_main(int argc, char **argv);
#define NS 6
#define NR 4
#define ND 2
#define DEG DEG1
/* ---- the library */
static int ngeo, nr, nds, ndr, upar; static const real_t *gn, *ge; static int nn, ne;
static real_t zs[ND], zr[ND], sva[ND], svb[ND], srho[ND], G[3][ND][ND][NR][NS][3], rs[NR]; static int order[NR];
static int zeroT(int s, int c) { return c == 2 && (s == 0 || s == 1 || s == 3); }
static const real_t N0[1] = {0}, E0[3] = {0, 1, 3}, E1[4] = {1, 2, 3, 4}, N2[2] = {-4, 0}, E2[2] = {3, 7.5}, E3[2] = {1, 2}, E4[1] = {2};
static const real_t R0[3] = {0, 1, 3}, R2[4] = {5, 8.5, 3, 7.5};
static const int O2[4] = {2, 0, 3, 1};
static void geometry(int k)
{
    gn = N0; nn = 1; for (int i = 0; i < NR; i++) order[i] = i;
    switch (k) {
    case 0: ge = E0; ne = 3; break;                                          /* unequal spacing from zero */
    case 1: ge = E1; ne = 4; break;                                          /* equal spacing */
    case 2: gn = N2; nn = 2; ge = E2; ne = 2; for (int i = 0; i < 4; i++) order[i] = O2[i]; break;  /* horizontal grid, distances 5 8.5 3 7.5 */
    case 3: ge = E3; ne = 2; break;
    default: ge = E4; ne = 1;
    }
    nr = nn*ne; for (int i = 0; i < nr; i++) rs[i] = k == 2 ? R2[i] : ge[i];
}
static void wlib(const char *path)
{
    STGRNLIB *l = grt_stgrnlib_alloc(nds, zs, ndr, zr, nn, gn, ne, ge, upar); real_t mod[2][GRT_MODARR_NCOL] = {{1.5, 5, 3, 2.5, 100, 50}, {0, 6, 3.5, 2.75, 200, 100}};
    for (int i = 0; i < nds; i++) { l->src_va[i] = sva[i]; l->src_vb[i] = svb[i]; l->src_rho[i] = srho[i]; }
    for (int i = 0; i < ndr; i++) { l->rcv_va[i] = 1; l->rcv_vb[i] = 2; l->rcv_rho[i] = 3; }
    grt_stgrnlib_set_modarr(l, 2, mod);
    for (int i = 0; i < nds; i++) for (int j = 0; j < ndr; j++) for (int p = 0; p < nr; p++) for (int s = 0; s < NS; s++) for (int c = 0; c < 3; c++) if (!zeroT(s, c)) {
        l->u[i][j][p][s][c] = G[0][i][j][p][s][c]; if (upar) { l->uiz[i][j][p][s][c] = G[1][i][j][p][s][c]; l->uir[i][j][p][s][c] = G[2][i][j][p][s][c]; }
    }
    grt_stgrnlib_save_nc(l, path); grt_stgrnlib_free(l);
}
static void library(const char *path, unsigned used)
{
    for (int i = 0; i < nds; i++) { sva[i] = cv_pos("src_va", 4, 8); svb[i] = cv_pos("src_vb", 2, 4); srho[i] = cv_pos("src_rho", 2, 3); }
    for (int i = 0; i < nds; i++) for (int j = 0; j < ndr; j++) for (int p = 0; p < nr; p++) for (int s = 0; s < NS; s++) for (int c = 0; c < 3; c++) if (!zeroT(s, c))
        for (int k = 0; k < (upar ? 3 : 1); k++) G[k][i][j][p][s][c] = used >> s & 1 ? cv_real("gf", -2, 2) : 0.25;
    wlib(path);
}
/* ---- source radiation at azimuth a: R, and its azimuthal derivative D, per unit of m0 times the source unit */
static void radiation(GRT_SYN_TYPE t, real_t q, real_t a, const real_t *par, realChnlGrid R, realChnlGrid D)
{
    real_t M[3][3] = {{0}}, B[3][3]; memset(D, 0, sizeof(realChnlGrid)); ray(a, B);
    if (t == GRT_SYN_SF) {
        real_t f[3]; spec_F(a, par, 1e-15, R); for (int i = 0; i < 3; i++) { f[i] = 0; for (int j = 0; j < 3; j++) f[i] += B[i][j]*par[j]; }
        D[2][0] = D[2][1] = 1e-15*f[1]; D[2][2] = -1e-15*f[0]; return;
    }
    if (t == GRT_SYN_EX) for (int i = 0; i < 3; i++) M[i][i] = 1;
    else if (t == GRT_SYN_MT) { M[0][0] = par[0]; M[0][1] = M[1][0] = par[1]; M[0][2] = M[2][0] = par[2]; M[1][1] = par[3]; M[1][2] = M[2][1] = par[4]; M[2][2] = par[5]; }
    else { real_t d[3], n[3]; fault(DEG*par[0], DEG*par[1], t == GRT_SYN_DC ? DEG*par[2] : 0, d, n); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) M[i][j] = t == GRT_SYN_DC ? d[i]*n[j] + d[j]*n[i] : 2*n[i]*n[j] + (i == j ? q*q - 2 : 0); }
    spec_MT(a, M, 1e-20, R); if (t == GRT_SYN_EX) { memset(R[3], 0, 9*sizeof(real_t)); return; }
    if (t == GRT_SYN_DC) R[0][0] = R[0][1] = 0;
    real_t T[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { T[i][j] = 0; for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) T[i][j] += B[i][x]*M[x][y]*B[j][y]; }
    const real_t m = 1e-20; D[4][0] = D[4][1] = -m*T[1][2]; D[4][2] = m*T[0][2]; D[5][0] = D[5][1] = m*2*T[0][1]; D[5][2] = m*(T[1][1] - T[0][0]);
}
/* contract of the library function that the command calls (established by P08) */
void contract__grt_set_source_radiation(realChnlGrid out, const GRT_SYN_TYPE t, const bool d, const real_t m0, const real_t coef, const real_t ratio, const real_t a, const real_t *p)
{
    realChnlGrid R, D; radiation(t, ratio, a, p, R, D); for (int s = 0; s < NS; s++) for (int c = 0; c < 3; c++) out[s][c] = (d ? D : R)[s][c]*m0*coef;
}
/* ---- specification: field of a point source at (north, east) from one library distance, in the ray frame or the Cartesian one */
typedef struct { real_t u[3], g[3][3]; } FIELD;
static void one(FIELD *f, GRT_SYN_TYPE t, real_t m0, real_t q, const real_t *par, real_t a, int p, int is, int ir, int cart, int der)
{
    realChnlGrid R, D; radiation(t, q, a, par, R, D); const real_t r = rs[p]; memset(f, 0, sizeof *f);
    for (int s = 0; s < NS; s++) for (int c = 0; c < 3; c++) if (!zeroT(s, c)) {
        real_t v = G[0][is][ir][p][s][c], vz = G[1][is][ir][p][s][c], vr = G[2][is][ir][p][s][c];
        f->u[c] += m0*R[s][c]*v;
        if (der) { f->g[0][c] += 1e-5*m0*R[s][c]*vz; f->g[1][c] += 1e-5*m0*R[s][c]*vr; f->g[2][c] += 1e-5*m0*D[s][c]*(r == 0 ? vr : v/r); }
    }
    if (!cart) return;
    real_t v[3], H[3][3], Q[3][3] = {{1, 0, 0}, {0, cos(a), -sin(a)}, {0, sin(a), cos(a)}}; for (int c = 0; c < 3; c++) { v[c] = f->u[c]; for (int d = 0; d < 3; d++) H[d][c] = f->g[d][c]; }
    if (der) { real_t ur = r == 0 ? H[1][1] : v[1]/(r*1e5), ut = r == 0 ? H[1][2] : v[2]/(r*1e5); H[2][1] -= ut; H[2][2] += ur; }
    for (int c = 0; c < 3; c++) {
        f->u[c] = 0; for (int x = 0; x < 3; x++) f->u[c] += Q[c][x]*v[x];
        for (int d = 0; d < 3; d++) { f->g[d][c] = 0; for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) f->g[d][c] += Q[d][x]*Q[c][y]*H[x][y]; }
    }
}
static void add(FIELD *f, real_t w, const FIELD *x) { for (int c = 0; c < 3; c++) { f->u[c] += w*x->u[c]; for (int d = 0; d < 3; d++) f->g[d][c] += w*x->g[d][c]; } }
/* linear interpolation weights of z in v[0..n-1] (caller keeps z inside) */
static int bracket(int n, const real_t *v, real_t z, real_t w[2]) { for (int i = 0; i + 1 < n; i++) if (z < v[i + 1]) { w[1] = (z - v[i])/(v[i + 1] - v[i]); w[0] = 1 - w[1]; return i; } w[0] = 1; w[1] = 0; return n - 1; }
/* field of a point source at depth zsrc seen at (n, e, zrcv) relative to the source; zero outside the distances of the library */
static void point(FIELD *f, real_t zsrc, real_t zrcv, real_t n, real_t e, GRT_SYN_TYPE t, real_t m0, int times_mu, const real_t *par, int cart, int der)
{
    real_t sorted[NR], w[2], ws[2], wr[2], r = hypot(n, e), a = r == 0 ? 0 : atan2(e, n); FIELD x; memset(f, 0, sizeof *f);
    for (int i = 0; i < nr; i++) sorted[i] = rs[order[i]];
    if (r < sorted[0] || r > sorted[nr - 1]) return;
    int k = bracket(nr, sorted, r, w), is = bracket(nds, zs, zsrc, ws), ir = bracket(ndr, zr, zrcv, wr);
    for (int i = 0; i < (is + 1 < nds ? 2 : 1); i++) for (int j = 0; j < (ir + 1 < ndr ? 2 : 1); j++) {
        real_t m = times_mu ? m0*svb[is + i]*svb[is + i]*srho[is + i]*1e10 : m0;
        for (int b = 0; b < (k + 1 < nr ? 2 : 1); b++) { one(&x, t, m, sva[is + i]/svb[is + i], par, a, order[k + b], is + i, ir + j, cart, der); add(f, ws[i]*wr[j]*w[b], &x); }
    }
}
/* ---- command line and output */
static char opt[20][200]; static int nopt;
static char *arg(void) { return opt[nopt++]; }
static int run(void) { char *av[24]; int n = 0; av[n++] = "static_syn"; for (int i = 0; i < nopt; i++) av[n++] = opt[i]; av[n] = 0; cv_getopt_reset(); return static_syn_main(n, av); }
static char lower(char c) { return (char)(c - 'A' + 'a'); }
static void rvar(const char *name, int np, real_t *x)
{
    int id, v, nd, dm[4]; size_t len, tot = 1; nc_open("out.nc", NC_NOWRITE, &id); cv_true("output variable present", nc_inq_varid(id, name, &v) == NC_NOERR);
    nc_inq_varndims(id, v, &nd); nc_inq_vardimid(id, v, dm); for (int i = 0; i < nd; i++) { nc_inq_dimlen(id, dm[i], &len); tot *= len; }
    cv_true("size of an output variable", tot == (size_t)np); if (tot == (size_t)np) nc_get_var_double(id, v, x); nc_close(id);
}
static void check(int np, FIELD *f, real_t unit, int cart, int der)
{
    char p[8]; const char *ch = cart ? "ZNE" : "ZRT"; real_t x[8];
    for (int c = 0; c < 3; c++) {
        sprintf(p, "%c", ch[c]); rvar(p, np, x); for (int i = 0; i < np; i++) cv_eq("displacement", x[i]/unit, f[i].u[c]/unit);
        if (der) for (int d = 0; d < 3; d++) { sprintf(p, "%c%c", lower(ch[d]), ch[c]); rvar(p, np, x); for (int i = 0; i < np; i++) cv_eq("derivative", x[i]/unit*1e5, f[i].g[d][c]/unit*1e5); }
    }
}
