/* P21: Okada's solutions.  Specification: the surface displacement of a point source (closed form of Okada 1985), the derivative outputs as
 * true derivatives, elastic equilibrium in the half-space and a traction-free surface -- which together determine the point-source field
 * uniquely -- and the rectangular fault as the exact integral of the point source over its area (mixed derivative + empty fault). */
#include "spec.h"
#include <string.h>
#include <tgmath.h>
#include "grt/common/const.h"
#include "grt/okada/okada.h"
static real_t al, x, y, z, dep, dip, sd, cd, pot[4];
static const char *XYZ[3] = {"x", "y", "z"};
static void pots(int n)
{
    int one = cv_choose("sources", n + 1);
    for (int i = 0; i < 4; i++) { pot[i] = 0; if (i < n && (one == n || one == i)) { pot[i] = cv_real("potency", -2, 2); cv_assume_ne(pot[i], 0); } }
}
/* general position: away from the coordinate planes by more than the rounding to zero; listed signs cover all octants */
static void place(int surface)
{
    cv_tol(1e-7, 1e-10); al = cv_pos("alpha", 0.4, 0.9); cv_assume_lt(al, 1);
    int oct = cv_choose("quadrant", 4); x = cv_real("x", oct & 1 ? -5 : 0.5, oct & 1 ? -0.5 : 5); y = cv_real("y", oct & 2 ? -5 : 0.5, oct & 2 ? -0.5 : 5); cv_assume_lt(1e-6, oct & 1 ? -x : x); cv_assume_lt(1e-6, oct & 2 ? -y : y);
    dep = cv_pos("depth", 3, 8); cv_assume_lt(1e-6, dep); z = 0;
    if (!surface) { z = cv_real("z", -2, -0.1); cv_assume_lt(z, 0); cv_assume_lt(1e-6, dep + z); }
}
static void angle(void) { dip = cv_real("dip", 5, 85); sd = sin(dip*PI/180); cd = cos(dip*PI/180); cv_assume_lt(1e-6, cd); }
static void flat(void) { static const real_t D[4] = {0, 90, 180, -90}; int k = cv_choose("dip", 4); dip = D[k]; sd = k == 1 ? 1 : k == 3 ? -1 : 0; cd = k == 0 ? 1 : k == 2 ? -1 : 0; }
static void surface_field(real_t px, real_t py, real_t d, const real_t *po, real_t u[3])
{
    real_t R = sqrt(px*px + py*py + d*d), R3 = R*R*R, R5 = R3*R*R, e = R + d, m = (1 - al)/al, p = py*cd + d*sd, q = py*sd - d*cd;
    real_t I1 = m*py*(1/(R*e*e) - px*px*(3*R + d)/(R3*e*e*e)), I2 = m*px*(1/(R*e*e) - py*py*(3*R + d)/(R3*e*e*e)), I3 = m*px/R3 - I2, I4 = -m*px*py*(2*R + d)/(R3*e*e), I5 = m*(1/(R*e) - px*px*(2*R + d)/(R3*e*e));
    u[0] = -po[0]*(3*px*px*q/R5 + I1*sd) - po[1]*(3*px*p*q/R5 - I3*sd*cd) + po[2]*(3*px*q*q/R5 - I3*sd*sd) + po[3]*m*px/R3;
    u[1] = -po[0]*(3*px*py*q/R5 + I2*sd) - po[1]*(3*py*p*q/R5 - I1*sd*cd) + po[2]*(3*py*q*q/R5 - I1*sd*sd) + po[3]*m*py/R3;
    u[2] = -po[0]*(3*px*d*q/R5 + I4*sd) - po[1]*(3*d*p*q/R5 - I5*sd*cd) + po[2]*(3*d*q*q/R5 - I5*sd*sd) + po[3]*m*d/R3;
    for (int i = 0; i < 3; i++) u[i] /= 2*PI;
}
static void surface(void)
{
    real_t u[3], g[3][3], s[3]; pots(4); cv_true("accepted", grt_okada_dc3d0(al, x, y, z, dep, dip, pot[0], pot[1], pot[2], pot[3], u, g) == 0);
    surface_field(x, y, dep, pot, s); for (int i = 0; i < 3; i++) cv_eq("surface displacement", u[i], s[i]);
    real_t div = g[0][0] + g[1][1] + g[2][2], lam = (2*al - 1)/(1 - al);
    cv_eq("no shear traction xz", g[0][2] + g[2][0], 0); cv_eq("no shear traction yz", g[1][2] + g[2][1], 0); cv_eq("no normal traction", lam*div + 2*g[2][2], 0);
}
void H_point_surface(void) { place(1); angle(); surface(); }
/*@cv bounded=1 */
void H_point_surface_special(void) { place(1); if (cv_choose("above", 2)) x = y = 0; flat(); surface(); }
static void interior(void)
{
    real_t u[3], g[3][3]; pots(4); cv_true("accepted", grt_okada_dc3d0(al, x, y, z, dep, dip, pot[0], pot[1], pot[2], pot[3], u, g) == 0);
    for (int a = 0; a < 3; a++) for (int i = 0; i < 3; i++) cv_eq("derivative output is the derivative", cv_diffr(u[i], XYZ[a]), g[a][i]);
    real_t div = g[0][0] + g[1][1] + g[2][2];
    for (int i = 0; i < 3; i++) cv_eq("elastic equilibrium", al*cv_diffr(div, XYZ[i]) + (1 - al)*(cv_diffr(g[0][i], "x") + cv_diffr(g[1][i], "y") + cv_diffr(g[2][i], "z")), 0);
}
/*@cv cost=9 */
void H_point_interior(void) { place(0); angle(); interior(); }
/*@cv cost=5 bounded=1 */
void H_point_interior_special(void) { place(0); flat(); interior(); }
static void zero(const real_t u[3], real_t g[3][3]) { for (int i = 0; i < 3; i++) { cv_eq("no displacement", u[i], 0); for (int a = 0; a < 3; a++) cv_eq("no derivative", g[a][i], 0); } }
/* the source itself and points above the surface are reported */
void H_point_refused(void)
{
    place(0); angle(); real_t u[3], g[3][3]; int k = cv_choose("case", 3);
    if (k == 0) { real_t up = cv_pos("above", 0.1, 2); cv_true("above the surface", grt_okada_dc3d0(al, x, y, up, dep, dip, 1, 2, 3, 4, u, g) == 2); }
    else if (k == 1) cv_true("singular point", grt_okada_dc3d0(al, 0, 0, -dep, dep, dip, 1, 2, 3, 4, u, g) == 1);
    else { real_t up = cv_pos("above", 0.1, 2); cv_true("above the surface", grt_okada_dc3d(al, x, y, up, dep, dip, -1, 1, -1, 1, 1, 2, 3, u, g) == 2); }
    zero(u, g);
}
/* rectangular fault: general position of every corner and of its image */
static real_t a1, a2, w1, w2;
static void corners(int side)
{
    cv_tol(1e-5, 1e-9); al = cv_pos("alpha", 0.4, 0.9); cv_assume_lt(al, 1); dep = cv_pos("depth", 3, 8); z = cv_real("z", -2, -0.1); cv_assume_lt(z, 0); cv_assume_lt(1e-6, dep + z); angle();
    x = cv_real("x", -5, 5); y = cv_real("y", -2, 5); a1 = cv_real("al1", -4, 4); a2 = cv_real("al2", -4, 4); w1 = cv_real("aw1", -3, 0); w2 = cv_real("aw2", -3, 0);
    real_t xi[2] = {x - a1, x - a2}, w[2] = {w1, w2};
    for (int i = 0; i < 2; i++)
    {
        cv_assume_lt(1e-6, side & (1 << i) ? -xi[i] : xi[i]);
        for (int m = 0; m < 2; m++) { real_t d = m ? dep - z : dep + z; cv_assume_lt(1e-6, y*cd + d*sd - w[i]); cv_assume_lt(y*sd - d*cd, -1e-6); cv_assume_lt(1e-6, d - w[i]*sd); }
    }
    cv_assume_lt(1e-6, y - w2*cd);
}
/* the mixed derivative over the far corner is the point source there, for the displacement and for its derivative outputs; with the empty fault
 * below the fault is the integral of point sources, and its derivative outputs the integral of theirs, i.e. the derivatives of the displacement */
/*@cv cost=9 tlimit=400 */
void H_fault_density(void)
{
    corners(cv_choose("side", 4)); pots(3); real_t u[3], g[3][3], v[3], h[3][3];
    cv_true("accepted", grt_okada_dc3d(al, x, y, z, dep, dip, a1, a2, w1, w2, pot[0], pot[1], pot[2], u, g) == 0);
    cv_true("accepted", grt_okada_dc3d0(al, x - a2, y - w2*cd, z, dep - w2*sd, dip, pot[0], pot[1], pot[2], 0, v, h) == 0);
    for (int i = 0; i < 3; i++) { cv_eq("slip per area is the point source", cv_diff2r(u[i], "al2", "aw2"), v[i]); for (int a = 0; a < 3; a++) cv_eq("derivative output per area is that of the point source", cv_diff2r(g[a][i], "al2", "aw2"), h[a][i]); }
}
/* a fault without length or width does nothing */
/*@cv cost=4 tlimit=300 */
void H_fault_empty(void)
{
    corners(1); pots(3); real_t u[3], g[3][3]; int k = cv_choose("empty", 2);
    cv_true("accepted", grt_okada_dc3d(al, x, y, z, dep, dip, a1, k ? a2 : a1, w1, k ? w1 : w2, pot[0], pot[1], pot[2], u, g) == 0); zero(u, g);
}
/* special positions (observation point in the plane of the fault or of its image, in line with its edges, dips 0, 90, ...): the sum of point
 * sources by Gauss-Legendre quadrature */
static void gauss(int n, real_t *t, real_t *w)
{
    for (int i = 0; i < n; i++)
    {
        real_t r = cos(PI*(i + 0.75)/(n + 0.5)), d = 1;
        for (int it = 0; it < 30; it++) { real_t a = 1, b = r; for (int k = 2; k <= n; k++) { real_t c = ((2*k - 1)*r*b - (k - 1)*a)/k; a = b; b = c; } d = n*(r*b - a)/(r*r - 1); r -= b/d; }
        t[i] = r; w[i] = 2/((1 - r*r)*d*d);
    }
}
/*@cv sampled=1 samples=1500 */
void H_fault_special(void)
{
    enum { n = 20 }; real_t t[n], gw[n]; gauss(n, t, gw); cv_tol(1e-6, 1e-9);
    al = cv_pos("alpha", 0.4, 0.9); dep = cv_pos("depth", 6, 9); static const real_t D[5] = {0, 90, 30, 45, 70};
    dip = D[cv_choose("dip", 5)]; sd = sin(dip*PI/180); cd = cos(dip*PI/180); for (int i = 0; i < 3; i++) pot[i] = cv_real("slip", -2, 2);
    a1 = cv_real("al1", -1.5, -0.2); a2 = cv_real("al2", 0.2, 1.5); w1 = cv_real("aw1", -1.5, -0.2); w2 = cv_real("aw2", 0.1, 1);
    real_t far = cv_pos("distance", 1.5, 3); int kx = cv_choose("along", 5), kp = cv_choose("up", 5), kq = cv_choose("normal", 4);
    x = kx == 0 ? a1 : kx == 1 ? a2 : kx == 2 ? a1 - far : kx == 3 ? a2 + far : 0.25*a1; real_t p = kp == 0 ? w1 : kp == 1 ? w2 : kp == 2 ? w1 - far : kp == 3 ? w2 + far : 0.25*w2, q = kq == 0 ? 0 : kq == 1 ? far : -far;
    cv_assume(kq != 0 || kx == 2 || kx == 3 || kp == 2 || kp == 3);
    if (kq < 3) { y = p*cd + q*sd; z = p*sd - q*cd - dep; } else { z = -cv_pos("receiver depth", 0.2, 3); y = (p - (dep - z)*sd); cv_assume(fabs(cd) > 0.5); y /= cd; }     /* last: in line with an edge of the image */
    cv_assume(z < -0.05);
    real_t u[3], g[3][3], U[3] = {0}, G[3][3] = {{0}}, v[3], h[3][3];
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++)
    {
        real_t a = (a1 + a2)/2 + (a2 - a1)/2*t[i], w = (w1 + w2)/2 + (w2 - w1)/2*t[j], f = gw[i]*gw[j]*(a2 - a1)*(w2 - w1)/4;
        cv_assume(hypot(x - a, hypot(y - w*cd, dep - w*sd + z)) > 1); grt_okada_dc3d0(al, x - a, y - w*cd, z, dep - w*sd, dip, pot[0], pot[1], pot[2], 0, v, h);
        for (int c = 0; c < 3; c++) { U[c] += f*v[c]; for (int b = 0; b < 3; b++) G[b][c] += f*h[b][c]; }
    }
    cv_true("accepted", grt_okada_dc3d(al, x, y, z, dep, dip, a1, a2, w1, w2, pot[0], pot[1], pot[2], u, g) == 0);
    for (int c = 0; c < 3; c++) { cv_eq("displacement is the sum of point sources", u[c], U[c]); for (int b = 0; b < 3; b++) cv_eq("derivatives are the sums of those of the point sources", g[b][c], G[b][c]); }
}
