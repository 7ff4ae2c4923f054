/* P13: synthetic seismograms (grt syn).  Specification: source radiation (radspec.h, same as P08) times Green's functions, their
 * spatial derivatives, rotation to Cartesian components, source time function. */
#include "cv.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <tgmath.h>
#include <sys/stat.h>
#include "grt/common/const.h"
#include "grt/common/sacio.h"
#include "grt/common/radiation.h"
#include "radspec.h"
int syn_main(int argc, char **argv);
#define NMAX 4
#define NS 6
static const char *SRC[NS] = {"EX", "VF", "HF", "DD", "DS", "SS"}; static const char CH[] = "ZRT";
static real_t gf[3][NS][3][NMAX];          /* [plain, d/dz, d/dr][source][component][sample] */
static int nt, cart, zero, der, type; static real_t dt, dist, med[3], wI, az, Mo, scale;
static int generic; static char opt[16][80]; static int nopt;
static real_t u[3][NMAX], g[3][3][NMAX];   /* specification: displacement, g[direction][component] */
static int used(int s) { switch (type) { case 0: return s == 0; case 1: return s == 1 || s == 2; case 3: return s >= 3; default: return s == 0 || s >= 3; } }
static void wsac(const char *path, const real_t *v)
{
    SACTRACE *s = grt_new_SACTRACE((float)dt, nt, 0); s->hd.dist = (float)dist; s->hd.user6 = (float)med[0]; s->hd.user7 = (float)med[1]; s->hd.user8 = (float)med[2]; s->hd.user0 = (float)wI; s->hd.az = 0;
    for (int i = 0; i < nt; i++) s->data[i] = (float)v[i];
    grt_write_SACTRACE(path, s); grt_free_SACTRACE(s);
}
static void library(const char *dir)
{
    char p[64]; mkdir(dir, 0777);
    for (int k = 0; k < (der ? 3 : 1); k++) for (int s = 0; s < NS; s++) if (used(s)) for (int c = 0; c < 3; c++) {
        if ((s == 0 || s == 1 || s == 3) && c == 2) continue;
        for (int i = 0; i < nt; i++) gf[k][s][c][i] = cv_real("gf", -2, 2);
        sprintf(p, "%s/%s%s%c.sac", dir, k == 0 ? "" : k == 1 ? "z" : "r", SRC[s], CH[c]); wsac(p, gf[k][s][c]);
    }
}
static char *arg(void) { return opt[nopt++]; }
static real_t deg(real_t x) { return x*PI/180; }
/* the source: command line and radiation (value and azimuthal derivative) */
static real_t par[GRT_MECHANISM_NUM]; static realChnlGrid R, D; static real_t unit;
/* contract of the radiation factors (established by P08): called with the requested mechanism, they are the specified radiation */
void contract__grt_set_source_radiation(realChnlGrid out, const GRT_SYN_TYPE t, const bool d, const real_t m0, const real_t coef, const real_t ratio, const real_t a, const real_t *p)
{
    static const GRT_SYN_TYPE T[5] = {GRT_SYN_EX, GRT_SYN_SF, GRT_SYN_TS, GRT_SYN_DC, GRT_SYN_MT};
    cv_true("mechanism passed on", t == T[type]); cv_eq("moment passed on", m0, Mo); cv_eq("azimuth passed on", a, deg(zero ? 0 : az));
    if (type == 2) cv_eq("Vp/Vs passed on", ratio, med[0]/med[1]);
    for (int i = 0; i < (type == 0 ? 0 : type == 4 ? 6 : type == 2 ? 2 : 3); i++) cv_eq("mechanism parameter passed on", p[i], par[i]);
    for (int s = 0; s < NS; s++) for (int c = 0; c < 3; c++) out[s][c] = (d ? D : R)[s][c]*coef;
}
static void source(void)
{
    real_t M[3][3] = {{0}}, B[3][3], F[3], mult; int u_ = der ? 0 : cv_choose("times_modulus", 2); Mo = cv_pos("M0", 1e19, 1e21);
    sprintf(arg(), u_ ? "-Su%.17g" : "-S%.17g", Mo); if (u_) Mo *= med[1]*med[1]*med[2]*1e10; mult = (type == 1 ? 1e-15 : 1e-20)*Mo; unit = mult;
    real_t a = deg(zero ? 0 : az); ray(a, B);
    if (type == 1) {
        real_t f[3]; for (int i = 0; i < 3; i++) par[i] = F[i] = cv_real("force", -2, 2); sprintf(arg(), "-F%.17g/%.17g/%.17g", F[0], F[1], F[2]);
        spec_F(a, F, mult, R); for (int i = 0; i < 3; i++) { f[i] = 0; for (int j = 0; j < 3; j++) f[i] += B[i][j]*F[j]; }
        memset(D, 0, sizeof(realChnlGrid)); D[2][0] = D[2][1] = mult*f[1]; D[2][2] = -mult*f[0]; goto end;
    }
    if (type == 0) for (int i = 0; i < 3; i++) M[i][i] = 1;
    else if (type == 4) {
        real_t m[6]; for (int i = 0; i < 6; i++) par[i] = m[i] = cv_real("tensor", -2, 2); sprintf(arg(), "-T%.17g/%.17g/%.17g/%.17g/%.17g/%.17g", m[0], m[1], m[2], m[3], m[4], m[5]);
        M[0][0] = m[0]; M[0][1] = M[1][0] = m[1]; M[0][2] = M[2][0] = m[2]; M[1][1] = m[3]; M[1][2] = M[2][1] = m[4]; M[2][2] = m[5];
    } else {
        real_t st = cv_real("strike", 0, 360), dp = cv_real("dip", 0, 90), rk = 0, d[3], n[3];
        cv_assume_le(0, st); cv_assume_le(st, 360); cv_assume_le(0, dp); cv_assume_le(dp, 90);
        if (type == 3) { rk = cv_real("rake", -180, 180); cv_assume_le(-180, rk); cv_assume_le(rk, 180); sprintf(arg(), "-M%.17g/%.17g/%.17g", st, dp, rk); } else sprintf(arg(), "-M%.17g/%.17g", st, dp);
        par[0] = st; par[1] = dp; par[2] = rk;
        fault(deg(st), deg(dp), deg(rk), d, n); real_t q = med[0]/med[1];
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) M[i][j] = type == 3 ? d[i]*n[j] + d[j]*n[i] : 2*n[i]*n[j] + (i == j ? q*q - 2 : 0);
    }
    spec_MT(a, M, mult, R);
    real_t T[3][3], Q[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { T[i][j] = 0; for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) T[i][j] += B[i][x]*M[x][y]*B[j][y]; }
    /* the frame turns: de_r/dtheta = e_t, de_t/dtheta = -e_r */
    Q[0][0] = 2*T[0][1]; Q[1][1] = -2*T[0][1]; Q[0][1] = T[1][1] - T[0][0]; Q[0][2] = T[1][2]; Q[1][2] = -T[0][2];
    memset(D, 0, sizeof(realChnlGrid)); D[4][0] = D[4][1] = -mult*Q[0][2]; D[4][2] = -mult*Q[1][2]; D[5][0] = D[5][1] = mult*(Q[0][0] - Q[1][1])/2; D[5][2] = mult*Q[0][1];
    if (type == 0) { memset(D, 0, sizeof D); memset(R[3], 0, 9*sizeof(real_t)); }
    if (type == 3) R[0][0] = R[0][1] = 0;
end:
    if (generic) for (int s = 0; s < NS; s++) for (int c = 0; c < 3; c++) if (used(s) && !(c == 2 && (s == 0 || s == 1 || s == 3))) { cv_assume_ne(R[s][c], 0); if (der && s != 0 && s != 1 && s != 3) cv_assume_ne(D[s][c], 0); }
}
static void spec(void)
{
    for (int c = 0; c < 3; c++) for (int i = 0; i < nt; i++) {
        u[c][i] = 0; for (int d = 0; d < 3; d++) g[d][c][i] = 0;
        for (int s = 0; s < NS; s++) if (used(s)) {
            u[c][i] += R[s][c]*gf[0][s][c][i];
            if (der) { g[0][c][i] += 1e-5*R[s][c]*gf[1][s][c][i]; g[1][c][i] += 1e-5*R[s][c]*gf[2][s][c][i]; g[2][c][i] += 1e-5*D[s][c]*(zero ? gf[2][s][c][i] : gf[0][s][c][i]/dist); }
        }
    }
}
/* to vertical, north, east: vectors and gradients (the cylindrical basis turns with the azimuth) */
static void to_cartesian(void)
{
    real_t a = deg(zero ? 0 : az), Q[3][3] = {{1, 0, 0}, {0, cos(a), -sin(a)}, {0, sin(a), cos(a)}};
    for (int i = 0; i < nt; i++) {
        real_t v[3], G[3][3]; for (int c = 0; c < 3; c++) { v[c] = u[c][i]; for (int d = 0; d < 3; d++) G[d][c] = g[d][c][i]; }
        if (der) { real_t ur = zero ? G[1][1] : v[1]/(dist*1e5), ut = zero ? G[1][2] : v[2]/(dist*1e5); G[2][1] -= ut; G[2][2] += ur; }
        for (int c = 0; c < 3; c++) {
            u[c][i] = 0; for (int x = 0; x < 3; x++) u[c][i] += Q[c][x]*v[x];
            for (int d = 0; d < 3; d++) { g[d][c][i] = 0; for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) g[d][c][i] += Q[d][x]*Q[c][y]*G[x][y]; }
        }
    }
}
static int run(void)
{
    char *av[20]; int n = 0; av[n++] = "syn"; for (int i = 0; i < nopt; i++) av[n++] = opt[i]; av[n] = 0;
    cv_getopt_reset(); return syn_main(n, av);
}
static void setup(int t)
{
    cv_fs(); cv_tol(2e-4, 1e-3); nopt = 0; type = t; zero = 0; dt = 0.5; wI = 0.125; nt = 2;
    med[0] = cv_pos("va", 4, 8); med[1] = cv_pos("vb", 2, 4); med[2] = cv_pos("rho", 2, 3);
    az = cv_real("azimuth", 0, 360); cv_assume_le(0, az); cv_assume_le(az, 360);
    strcpy(arg(), "-Glib"); strcpy(arg(), "-Oout"); strcpy(arg(), "-s"); sprintf(arg(), "-A%.17g", az);
}
static void check(void)
{
    char p[64]; const char *ch = cart ? "ZNE" : "ZRT"; real_t a = zero ? 0 : az, q = unit; if (der && !zero) q *= 1 + 1/dist;
    for (int k = 0; k < (der ? 4 : 1); k++) for (int c = 0; c < 3; c++) {
        if (k) sprintf(p, "out/%c%c.sac", ch[k - 1] - 'A' + 'a', ch[c]); else sprintf(p, "out/%c.sac", ch[c]);
        SACTRACE *s = grt_read_SACTRACE(p, false); cv_true("number of samples", s->hd.npts == nt); cv_eq("sampling interval", s->hd.delta, dt); cv_eq("distance", s->hd.dist, dist);
        cv_eq("azimuth", s->hd.az, a); cv_true("back azimuth", s->hd.baz >= -1e-3 && s->hd.baz < 360.001); cv_eq("back azimuth opposite", s->hd.baz, a < 180 ? a + 180 : a - 180);
        cv_true("component name", k ? s->hd.kcmpnm[0] == ch[k - 1] - 'A' + 'a' && s->hd.kcmpnm[1] == ch[c] : s->hd.kcmpnm[0] == ch[c]);
        for (int i = 0; i < nt; i++) { cv_eq(k ? "derivative" : "displacement", s->data[i]/(k ? q*1e-5 : unit), (k ? g[k - 1][c][i] : u[c][i])/(k ? q*1e-5 : unit)); }
    }
}
static void body(int t)
{
    setup(t); cart = cv_choose("cartesian", 2); der = cv_choose("derivatives", 2); zero = der && cv_choose("zero_distance", 2); dist = zero ? 0 : cv_pos("dist", 0.1, 100); if (!zero) cv_assume_lt(1e-8, dist);
    if (cart) strcpy(arg(), "-N"); if (der) strcpy(arg(), "-e");
    generic = 1; source(); library("lib"); spec(); if (cart) to_cartesian();
    cv_true("success", run() == 0); check();
}
/*@cv replace=grt_set_source_radiation bounded=1 */
void H_syn_explosion(void) { body(0); }
/*@cv replace=grt_set_source_radiation bounded=1 */
void H_syn_force(void) { body(1); }
/*@cv replace=grt_set_source_radiation bounded=1 */
void H_syn_tensile(void) { body(2); }
/*@cv replace=grt_set_source_radiation bounded=1 */
void H_syn_double_couple(void) { body(3); }
/*@cv replace=grt_set_source_radiation bounded=1 */
void H_syn_tensor(void) { body(4); }
/* mechanisms whose radiation vanishes for some components (no genericity assumed) */
/*@cv bounded=1 */
void H_syn_special(void)
{
    static const struct { int t; const char *m; real_t M[6], az; } K[6] = {{4, "-T1/0/0/1/0/1", {1, 0, 0, 1, 0, 1}, 30}, {4, "-T0/0/0/0/0/0", {0}, 30}, {4, "-T0/1/0/0/0/0", {0, 1}, 0}, {4, "-T0/0/1/0/0/0", {0, 0, 1}, 90}, {1, "-F0/0/1", {0, 0, 1}, 17}, {1, "-F1/0/0", {1}, 90}};
    cv_fs(); cv_tol(2e-4, 1e-3); int k = cv_choose("case", 6); nopt = 0; generic = 0; type = K[k].t; nt = 1; dt = 0.5; wI = 0; med[0] = 6; med[1] = 3.5; med[2] = 2.5; az = K[k].az; cart = 0; der = cv_choose("derivatives", 2); zero = 0; dist = 10; Mo = unit = type == 1 ? 1e15 : 1e20;
    strcpy(arg(), "-Glib"); strcpy(arg(), "-Oout"); strcpy(arg(), "-s"); sprintf(arg(), "-A%.17g", az); strcpy(arg(), type == 1 ? "-S1e15" : "-S1e20"); strcpy(arg(), K[k].m); if (der) strcpy(arg(), "-e");
    library("lib"); unit = 1; real_t a = deg(az), c = cos(a), s = sin(a);
    const real_t *m = K[k].M; memset(R, 0, sizeof R); memset(D, 0, sizeof D);
    if (type == 1) { spec_F(a, m, 1, R); D[2][0] = D[2][1] = -m[0]*s + m[1]*c; D[2][2] = -m[0]*c - m[1]*s; }
    else {
        real_t M[3][3] = {{m[0], m[1], m[2]}, {m[1], m[3], m[4]}, {m[2], m[4], m[5]}}; spec_MT(a, M, 1, R);
        real_t rt = (m[3] - m[0])*s*c + m[1]*(c*c - s*s), rr = m[0]*c*c + 2*m[1]*s*c + m[3]*s*s, tt = m[0]*s*s - 2*m[1]*s*c + m[3]*c*c, rz = m[2]*c + m[4]*s, tz = -m[2]*s + m[4]*c;
        D[4][0] = D[4][1] = -tz; D[4][2] = rz; D[5][0] = D[5][1] = 2*rt; D[5][2] = tt - rr;
    }
    spec(); cv_true("success", run() == 0); check();
}
/* convolution with a time function (damped circular), repeated integration and differentiation */
void H_syn_time(void)
{
    static real_t h[6], x[NMAX], y[NMAX]; static char f[64]; int nh = cv_size("signal", 0, 4, 5), I_ = 0, J = 0, p = cv_choose("process", 4);
    setup(0); generic = 0; cart = der = 0; dist = 10; nt = cv_size("nt", 2, 3, 4); dt = cv_pos("dt", 0.2, 1); wI = cv_pos("damping", 0.01, 0.3); Mo = 1e20; unit = 1; strcpy(arg(), "-S1e20");
    if (p == 1) { strcpy(arg(), "-I1"); I_ = 1; } if (p == 2) { strcpy(arg(), "-J1"); J = 1; } if (p == 3) { strcpy(arg(), "-I2"); I_ = 2; }
    if (nh) { strcpy(arg(), "-D0/tf"); FILE *fp = fopen("tf", "w"); for (int i = 0; i < nh; i++) { h[i] = cv_real("signal", -2, 2); sprintf(f, "%.17g\n", h[i]); fputs(f, fp); } fclose(fp); }
    library("lib"); cv_true("success", run() == 0);
    for (int c = 0; c < 2; c++) {
        for (int i = 0; i < nt; i++) {
            x[i] = nh ? 0 : gf[0][0][c][i];
            for (int a = 0; a < nt; a++) for (int b = 0; b < nh; b++) if ((a + b) % nt == i) x[i] += dt*gf[0][0][c][a]*h[b]*exp(-wI*dt*(a + b - i));
        }
        for (int k = 0; k < I_; k++) { y[0] = 0; for (int i = 1; i < nt; i++) y[i] = y[i - 1] + 0.5*dt*(x[i - 1] + x[i]); for (int i = 0; i < nt; i++) x[i] = y[i]; }
        if (J) { for (int i = 0; i < nt; i++) { int a = i ? i - 1 : 0, b = i < nt - 1 ? i + 1 : i; y[i] = (x[b] - x[a])/((b - a)*dt); } for (int i = 0; i < nt; i++) x[i] = y[i]; }
        SACTRACE *s = grt_read_SACTRACE(c ? "out/R.sac" : "out/Z.sac", false); cv_true("number of samples", s->hd.npts == nt);
        for (int i = 0; i < nt; i++) cv_eq("processed sample", s->data[i], x[i]);
    }
    if (nh) { SACTRACE *s = grt_read_SACTRACE("out/sig.sac", false); cv_true("time function length", s->hd.npts == nh); cv_eq("time function interval", s->hd.delta, dt); for (int i = 0; i < nh; i++) cv_eq("time function kept", s->data[i], h[i]); }
}
/* a library root with several depths and distances: exactly the requested one is used, an ambiguous or missing request is refused */
/*@cv native=1 bounded=1 cost=9 */
void H_syn_root(void)
{
    static const real_t ds[2] = {2, 5.3}, dr[2] = {0, 0.25}, di[2] = {10, 300.11}; char p[64];
    int m = cv_choose("several", 8), qs = cv_choose("Ds", 3), qr = cv_choose("Dr", 3), qi = cv_choose("R", 3), amb = 0, none = 0, at[3] = {0, 0, 0}, q[3] = {qs, qr, qi};
    cv_fs(); cv_tol(1e-5, 1e-5); nopt = 0; type = 0; der = cart = zero = 0; nt = 1; dt = 0.5; wI = 0; med[0] = 6; med[1] = 3.5; med[2] = 2.5;
    for (int k = 0; k < 3; k++) { int sev = m >> k & 1; if (q[k] == 0) { if (sev) amb = 1; } else if (q[k] == 3 || (q[k] == 2 && !sev)) none = 1; else at[k] = q[k] - 1; }
    strcpy(arg(), "-Groot"); strcpy(arg(), "-Oout"); strcpy(arg(), "-s"); strcpy(arg(), "-A20"); strcpy(arg(), "-S1e20");
    const char *vs[4] = {0, "-Ds2", "-Ds5.3", "-Ds5.2"}, *vr[4] = {0, "-Dr0", "-Dr0.25", "-Dr0.3"}, *vi[4] = {0, "-R10", "-R300.11", "-R300.2"};
    if (qs) strcpy(arg(), vs[qs]); if (qr) strcpy(arg(), vr[qr]); if (qi) strcpy(arg(), vi[qi]);
    mkdir("root", 0777);
    for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) for (int c = 0; c < 2; c++) {
        if ((a && !(m & 1)) || (b && !(m & 2)) || (c && !(m & 4))) continue;
        sprintf(p, "root/g%d%d%d", a, b, c); mkdir(p, 0777);
        for (int k = 0; k < 2; k++) {
            SACTRACE *s = grt_new_SACTRACE((float)dt, 1, 0); s->hd.evdp = (float)ds[a]; s->hd.stel = (float)(-1e3*dr[b]); s->hd.dist = (float)di[c]; s->hd.user6 = 6; s->hd.user7 = 3.5f; s->hd.user8 = 2.5f; s->data[0] = (float)(100*a + 10*b + c + 1000*k);
            sprintf(p, "root/g%d%d%d/EX%c.sac", a, b, c, CH[k]); grt_write_SACTRACE(p, s); grt_free_SACTRACE(s);
        }
    }
    if (amb || none) cv_must_exit("an ambiguous or missing depth or distance is refused");
    cv_true("success", run() == 0);
    SACTRACE *s = grt_read_SACTRACE("out/R.sac", false); cv_eq("Green's functions of the requested depths and distance", s->data[0], 100*at[0] + 10*at[1] + at[2] + 1000);
    cv_eq("distance of the result", s->hd.dist, (real_t)(float)di[at[2]]);
}
/*@cv bounded=1 */
void H_syn_refused(void)
{
    static const char *bad[] = {"-A-1", "-A361", "-Ax", "-M-1/2/3", "-M361/2/3", "-M1/91/3", "-M1/-1/3", "-M1/2/181", "-M1/2/-181", "-M1", "-F1/2", "-T1/2/3/4/5", "-D0/none", "-Dp/-1", "-Dq/1", "-I0", "-I-1", "-J0", "-Ds3", "-Dr3", "-R3", "-Ds-1", "-Q"};
    int k = cv_choose("case", 29); cv_fs(); nopt = 0; type = 4; der = cart = zero = 0; nt = 1; dt = 0.5; wI = 0; dist = 10; med[0] = 6; med[1] = k == 26 ? 0 : 3.5; med[2] = 2.5;
    if (k != 23) strcpy(arg(), "-Glib"); if (k != 24) strcpy(arg(), "-Oout"); strcpy(arg(), "-s"); if (k != 25) strcpy(arg(), "-A20"); strcpy(arg(), k == 26 ? "-Su1e20" : "-S1e20");
    if (k < 23) strcpy(arg(), bad[k]); if (k == 27) { strcpy(arg(), "-M1/2/3"); strcpy(arg(), "-F1/2/3"); }
    library("lib"); if (k == 28) { remove("lib/SSR.sac"); strcpy(arg(), "-M10/20/30"); }
    cv_must_exit("invalid request is refused"); run();
}
