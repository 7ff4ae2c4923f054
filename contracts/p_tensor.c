/* P10: strain, stress and rotation tensors from displacement and its spatial derivatives, through the command-line modules
 * (SAC directories for time series, netCDF grids/points for static fields).
 * Specification: symmetric/antisymmetric part of the true displacement gradient in the frame of the input (cylindrical frames have the
 * u_r/r and u_theta/r terms; displacement in cm, distance in km), stress by Hooke's law with the receiver's moduli (dyne/cm^2). */
#include "cv.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <tgmath.h>
#include <netcdf.h>
#include "grt/common/const.h"
#include "grt/common/sacio.h"
int strain_main(int argc, char **argv); int stress_main(int argc, char **argv); int rotation_main(int argc, char **argv);
int static_strain_main(int argc, char **argv); int static_stress_main(int argc, char **argv); int static_rotation_main(int argc, char **argv);
#define NMAX 6
static real_t u[3][NMAX], g[3][3][NMAX];        /* g[d][c]: derivative along axis d of component c */
static real_t E[3][3][NMAX], W[3][3][NMAX];     /* specification: strain; rotation 0.5*(d_c2 u_c1 - d_c1 u_c2) for c1 < c2 */
static const char *frame(int cart) { return cart ? "ZNE" : "ZRT"; }
static char lower(char c) { return (char)(c - 'A' + 'a'); }
static void fields(int n, int unit)
{
    for (int i = 0; i < n; i++) { for (int c = 0; c < 3; c++) { u[c][i] = cv_real("u", -2, 2)*unit; for (int d = 0; d < 3; d++) g[d][c][i] = cv_real("du", -2, 2); } }
}
/* true gradient: in the cylindrical frame the 1/r d/dtheta derivatives act on the turning basis */
static void spec(int n, int cart, const real_t *dist, int zero)
{
    for (int i = 0; i < n; i++) {
        real_t G[3][3]; for (int d = 0; d < 3; d++) for (int c = 0; c < 3; c++) G[d][c] = g[d][c][i];
        if (!cart) { real_t ur = zero ? g[1][1][i] : u[1][i]/(dist[i]*1e5), ut = zero ? g[1][2][i] : u[2][i]/(dist[i]*1e5); G[2][1] -= ut; G[2][2] += ur; }
        for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) { E[a][b][i] = (G[a][b] + G[b][a])/2; W[a][b][i] = (G[b][a] - G[a][b])/2; }
    }
}
static void wsac(const char *path, int n, real_t dt, const real_t *v, real_t dist, const real_t *med)
{
    SACTRACE *s = grt_new_SACTRACE((float)dt, n, 0); s->hd.dist = (float)dist;
    s->hd.user1 = (float)med[0]; s->hd.user2 = (float)med[1]; s->hd.user3 = (float)med[2]; s->hd.user4 = (float)med[3]; s->hd.user5 = (float)med[4];
    for (int i = 0; i < n; i++) s->data[i] = (float)v[i];
    grt_write_SACTRACE(path, s); grt_free_SACTRACE(s);
}
static void wsyn(int cart, int n, real_t dt, real_t dist, const real_t *med)
{
    const char *ch = frame(cart); char p[64]; mkdir("syn", 0777);
    for (int c = 0; c < 3; c++) {
        sprintf(p, "syn/%c.sac", ch[c]); wsac(p, n, dt, u[c], dist, med);
        for (int d = 0; d < 3; d++) { sprintf(p, "syn/%c%c.sac", lower(ch[d]), ch[c]); wsac(p, n, dt, g[d][c], dist, med); }
    }
}
static float *rsac(const char *kind, char a, char b, int n)
{
    char p[64]; sprintf(p, "syn/%s_%c%c.sac", kind, a, b); SACTRACE *s = grt_read_SACTRACE(p, false);
    cv_true("number of samples kept", s->hd.npts == n); cv_true("component name", s->hd.kcmpnm[0] == a && s->hd.kcmpnm[1] == b);
    return s->data;
}
static int call(int (*f)(int, char **), const char *cmd, const char *arg) { char *av[3] = {(char *)cmd, (char *)arg, 0}; cv_getopt_reset(); return f(2, av); }
static int n, cart, zero; static real_t dt, dist[NMAX], med[5];
static void dyn(int nmax)
{
    cv_fs(); cv_tol(1e-4, 1e-4); n = cv_size("n", 1, 2, nmax); cart = cv_choose("cartesian", 2); zero = cv_choose("zero_distance", 2); dt = cv_pos("dt", 0.1, 2);
    real_t d = zero ? 0 : cv_pos("dist", 0.1, 100); if (!zero) cv_assume_lt(1e-8, d);
    for (int i = 0; i < n; i++) dist[i] = d;
    med[0] = cv_pos("va", 5, 8); med[1] = cv_pos("vb", 2, 4); med[2] = cv_pos("rho", 2, 3); med[3] = med[4] = 0;
    fields(n, 1); spec(n, cart, dist, zero); wsyn(cart, n, dt, d, med);
}
void H_strain(void)
{
    dyn(3); call(strain_main, "strain", "syn"); const char *ch = frame(cart);
    for (int a = 0; a < 3; a++) for (int b = a; b < 3; b++) { float *r = rsac("strain", ch[a], ch[b], n); for (int i = 0; i < n; i++) cv_eq("strain", r[i], E[a][b][i]); }
}
void H_rotation(void)
{
    dyn(3); call(rotation_main, "rotation", "syn"); const char *ch = frame(cart);
    for (int a = 0; a < 2; a++) for (int b = a + 1; b < 3; b++) { float *r = rsac("rotation", ch[a], ch[b], n); for (int i = 0; i < n; i++) cv_eq("rotation", r[i], W[a][b][i]); }
}
/* Hooke's law in the elastic case, sample by sample */
/*@cv cost=5 */
void H_stress_elastic(void)
{
    dyn(4); if (n == 1) { cv_assume(0); } call(stress_main, "stress", "syn"); const char *ch = frame(cart);
    real_t mu = med[1]*med[1]*med[2], lam = med[0]*med[0]*med[2] - 2*mu;
    for (int a = 0; a < 3; a++) for (int b = a; b < 3; b++) {
        float *r = rsac("stress", ch[a], ch[b], n);
        for (int i = 0; i < n; i++) { real_t tr = E[0][0][i] + E[1][1][i] + E[2][2][i]; cv_eq("Hooke's law", r[i]*1e-10, 2*mu*E[a][b][i] + (a == b ? lam*tr : 0)); }
    }
}
/* anelastic: complex moduli at every frequency strictly between zero and the Nyquist frequency */
static cplx_t dft(const real_t *x, int n, int k) { cplx_t s = 0; for (int j = 0; j < n; j++) { real_t t = -2*PI*((j*k) % n)/n; s += x[j]*(cos(t) + I*sin(t)); } return s; }
/*@cv cost=8 samples=100 */
void H_stress_anelastic(void)
{
    cv_fs(); cv_tol(1e-3, 1e-3); n = 3 + cv_size("n", 0, 1, 2); cart = cv_choose("cartesian", 2); zero = 0; dt = cv_pos("dt", 0.1, 2);
    real_t d = cv_pos("dist", 0.1, 100); cv_assume_lt(1e-8, d); for (int i = 0; i < n; i++) dist[i] = d;
    med[0] = cv_pos("va", 5, 8); med[1] = cv_pos("vb", 2, 4); med[2] = cv_pos("rho", 2, 3); med[3] = cv_pos("Qainv", 1e-3, 1e-1); med[4] = cv_pos("Qbinv", 1e-3, 1e-1);
    fields(n, 1); spec(n, cart, dist, zero); wsyn(cart, n, dt, d, med); call(stress_main, "stress", "syn");
    const char *ch = frame(cart); int nyq = n/2;
    for (int k = 1; 2*k < n; k++) {
        real_t lg = log((real_t)k/nyq)/PI;       /* reference: the highest frequency of the spectrum */
        cplx_t qa = 1 + med[3]*(lg + 0.5*I), qb = 1 + med[4]*(lg + 0.5*I), mu = med[1]*med[1]*qb*qb*med[2], lam = med[0]*med[0]*qa*qa*med[2] - 2*mu;
        for (int a = 0; a < 3; a++) for (int b = a; b < 3; b++) {
            float *r = rsac("stress", ch[a], ch[b], n); real_t x[NMAX]; for (int i = 0; i < n; i++) x[i] = r[i]*1e-10;
            cplx_t tr = dft(E[0][0], n, k) + dft(E[1][1], n, k) + dft(E[2][2], n, k);
            cv_eq("Hooke's law with complex moduli", dft(x, n, k), 2*mu*dft(E[a][b], n, k) + (a == b ? lam*tr : 0));
        }
    }
}
/* ---- static: netCDF */
static int nn, ne, points, perpoint; static real_t north[NMAX], east[NMAX], vaP[NMAX], vbP[NMAX], rhoP[NMAX];
static void wvar(int id, int v, const real_t *x) { nc_put_var_double(id, v, x); }
static void statics(int sized)
{
    cv_fs(); cv_tol(1e-8, 1e-8); cart = cv_choose("cartesian", 2); points = cv_choose("points", 2); perpoint = points ? cv_choose("medium_per_point", 2) : 0; zero = cv_choose("zero_distance", 2);
    if (points) { n = nn = cv_size("npoints", 1, 2, 3); ne = 1; } else { nn = cv_size("nnorth", 1, 2, 2); ne = cv_size("neast", 1, 2, 3); n = nn*ne; }
    if (zero) { cv_assume(n == 1); nn = ne = n = 1; }
    for (int i = 0; i < nn; i++) north[i] = zero ? 0 : cv_real("north", -9, 9);
    if (points) for (int i = 0; i < n; i++) east[i] = zero ? 0 : cv_real("east", -9, 9); else for (int i = 0; i < ne; i++) east[i] = zero ? 0 : cv_real("east", -9, 9);
    for (int i = 0; i < n; i++) { real_t x = points ? north[i] : north[i/ne], y = points ? east[i] : east[i%ne]; dist[i] = zero ? 0 : sqrt(x*x + y*y); if (!zero) cv_assume_lt(1e-8, dist[i]); }
    med[0] = cv_pos("va", 5, 8); med[1] = cv_pos("vb", 2, 4); med[2] = cv_pos("rho", 2, 3);
    for (int i = 0; i < n; i++) { vaP[i] = perpoint ? cv_pos("vaP", 5, 8) : med[0]; vbP[i] = perpoint ? cv_pos("vbP", 2, 4) : med[1]; rhoP[i] = perpoint ? cv_pos("rhoP", 2, 3) : med[2]; }
    fields(n, 1); spec(n, cart, dist, zero);
    int id, dm[2], vn, ve, vu[3], vg[3][3], vm[3], t = cart, one = 1; char p[8]; const char *ch = frame(cart); nc_create("f.nc", NC_CLOBBER, &id);
    nc_put_att_int(id, NC_GLOBAL, "rot2ZNE", NC_INT, 1, &t); nc_put_att_int(id, NC_GLOBAL, "calc_upar", NC_INT, 1, &one);
    if (!perpoint) { nc_put_att_double(id, NC_GLOBAL, "rcv_va", NC_DOUBLE, 1, &med[0]); nc_put_att_double(id, NC_GLOBAL, "rcv_vb", NC_DOUBLE, 1, &med[1]); nc_put_att_double(id, NC_GLOBAL, "rcv_rho", NC_DOUBLE, 1, &med[2]); }
    if (points) { nc_put_att_text(id, NC_GLOBAL, "layout", 6, "points"); nc_def_dim(id, "point", n, &dm[0]); nc_def_var(id, "north", NC_DOUBLE, 1, dm, &vn); nc_def_var(id, "east", NC_DOUBLE, 1, dm, &ve); }
    else { nc_put_att_text(id, NC_GLOBAL, "layout", 4, "grid"); nc_def_dim(id, "north", nn, &dm[0]); nc_def_dim(id, "east", ne, &dm[1]); nc_def_var(id, "north", NC_DOUBLE, 1, dm, &vn); nc_def_var(id, "east", NC_DOUBLE, 1, dm + 1, &ve); }
    int nd = points ? 1 : 2;
    if (perpoint) { nc_def_var(id, "rcv_va", NC_DOUBLE, nd, dm, &vm[0]); nc_def_var(id, "rcv_vb", NC_DOUBLE, nd, dm, &vm[1]); nc_def_var(id, "rcv_rho", NC_DOUBLE, nd, dm, &vm[2]); }
    for (int c = 0; c < 3; c++) { sprintf(p, "%c", ch[c]); nc_def_var(id, p, NC_DOUBLE, nd, dm, &vu[c]); for (int d = 0; d < 3; d++) { sprintf(p, "%c%c", lower(ch[d]), ch[c]); nc_def_var(id, p, NC_DOUBLE, nd, dm, &vg[d][c]); } }
    nc_enddef(id); wvar(id, vn, north); wvar(id, ve, east);
    if (perpoint) { wvar(id, vm[0], vaP); wvar(id, vm[1], vbP); wvar(id, vm[2], rhoP); }
    for (int c = 0; c < 3; c++) { wvar(id, vu[c], u[c]); for (int d = 0; d < 3; d++) wvar(id, vg[d][c], g[d][c]); }
    nc_close(id);
}
static void rvar(const char *kind, char a, char b, real_t *x)
{
    char p[32]; int id, v; nc_open("f.nc", NC_NOWRITE, &id); sprintf(p, "%s_%c%c", kind, a, b); cv_true("output variable present", nc_inq_varid(id, p, &v) == NC_NOERR); nc_get_var_double(id, v, x); nc_close(id);
}
void H_static_strain(void)
{
    statics(0); call(static_strain_main, "strain", "f.nc"); const char *ch = frame(cart); real_t x[NMAX];
    for (int a = 0; a < 3; a++) for (int b = a; b < 3; b++) { rvar("strain", ch[a], ch[b], x); for (int i = 0; i < n; i++) cv_eq("static strain", x[i], E[a][b][i]); }
}
void H_static_rotation(void)
{
    statics(0); call(static_rotation_main, "rotation", "f.nc"); const char *ch = frame(cart); real_t x[NMAX];
    for (int a = 0; a < 2; a++) for (int b = a + 1; b < 3; b++) { rvar("rotation", ch[a], ch[b], x); for (int i = 0; i < n; i++) cv_eq("static rotation", x[i], W[a][b][i]); }
}
void H_static_stress(void)
{
    statics(1); call(static_stress_main, "stress", "f.nc"); const char *ch = frame(cart); real_t x[NMAX];
    for (int a = 0; a < 3; a++) for (int b = a; b < 3; b++) {
        rvar("stress", ch[a], ch[b], x);
        for (int i = 0; i < n; i++) { real_t mu = vbP[i]*vbP[i]*rhoP[i], lam = vaP[i]*vaP[i]*rhoP[i] - 2*mu, tr = E[0][0][i] + E[1][1][i] + E[2][2][i]; cv_eq("static Hooke's law", x[i]*1e-10, 2*mu*E[a][b][i] + (a == b ? lam*tr : 0)); }
    }
}
