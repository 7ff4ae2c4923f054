/* P19: first-arrival times.  Specification (Fermat, written over the medium as a function of depth, not over model levels): the
 * earliest of the direct ray and of every head wave along a layer faster than all layers its ray crosses. */
#include "cv.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <tgmath.h>
#include "grt/common/const.h"
#include "grt/common/model.h"
#include "grt/common/travt.h"
int travt_main(int argc, char **argv);
#define NL 4
#define NONE (-12345.0)
static int n; static real_t top[NL + 1], vp[NL], vs[NL];
static void setup(int nl) { cv_fs(); cv_tol(1e-9, 1e-12); n = nl; top[0] = 0; top[nl] = 1e9; for (int i = 0; i < nl; i++) vp[i] = 0; }
static void write_model(void)
{
    FILE *f = fopen("m", "w");
    for (int i = 0; i < n; i++) fprintf(f, "%.17g %.17g %.17g 2.5\n", i < n - 1 ? top[i + 1] - top[i] : 1, vp[i], vs[i]);
    fclose(f);
}
static real_t overlap(int i, real_t a, real_t b) { real_t l = a > top[i] ? a : top[i], u = i == n - 1 || b < top[i + 1] ? b : top[i + 1]; return u > l ? u - l : 0; }
/* times and distance of the legs through [a,b] with slowness 1/v; 0 if a layer on the way is not slower than v */
static int legs(const real_t *c, real_t v, real_t a, real_t b, real_t w, real_t *T, real_t *X)
{
    for (int i = 0; i < n; i++) {
        real_t h = overlap(i, a, b); if (h <= 0) continue; if (c[i] >= v || c[i] <= 0) return 0;
        real_t s = c[i]/v, q = sqrt(1 - s*s); *T += w*h/(c[i]*q); *X += w*h*s/q;
    }
    return 1;
}
/* earliest of the given direct time and all head waves */
static real_t first(const real_t *c, real_t zs, real_t zr, real_t dist, real_t t)
{
    real_t a = zs < zr ? zs : zr, b = zs < zr ? zr : zs;
    for (int i = 0; i < n; i++) {
        real_t T = 0, X = 0; int up = i < n - 1 && top[i + 1] <= a, down = top[i] >= b; if ((!up && !down) || c[i] <= 0) continue;
        if (!legs(c, c[i], a, b, 1, &T, &X)) continue;
        if (!(up ? legs(c, c[i], top[i + 1], a, 2, &T, &X) : legs(c, c[i], b, top[i], 2, &T, &X))) continue;
        if (X <= dist) { real_t tt = T + (dist - X)/c[i]; if (tt < t) t = tt; }
    }
    return t;
}
static int at(real_t z) { int i = 0; while (i < n - 1 && z > top[i + 1]) i++; return i; }
static int dry(const real_t *c, real_t a, real_t b) { for (int i = 0; i < n; i++) if (c[i] <= 0 && (overlap(i, a, b) > 0 || at(a) == i || at(b) == i)) return 0; return 1; }
/* the direct ray in a single layer */
static real_t straight(const real_t *c, real_t zs, real_t zr, real_t dist)
{
    real_t a = zs < zr ? zs : zr, b = zs < zr ? zr : zs, v = c[at(b)]; if (dist == 0) return (b - a)/v; if (a == b) return dist/v; return sqrt(dist*dist + (b - a)*(b - a))/v;
}
static void compute(real_t zs, real_t zr, int nr, const real_t *r, real_t *tp, real_t *ts)
{
    write_model(); real_t *t = grt_compute_travt1d_from_file("m", zs, zr, r, nr); cv_true("computed", t != NULL);
    for (int i = 0; i < nr; i++) tp[i] = t[2*i], ts[i] = t[2*i + 1];
    free(t);
}
/* velocities: every ratio of two of them is the sine of a Pythagorean angle, so that all head waves have rational slownesses; the other
 * wave type is uniform (checks that columns are not mixed) */
#define A (6*308.0/533)
#define B (6*140.0/221)
static const real_t VV[8][3] = {{A, 6, 6}, {B, 6, A}, {A, A, 6}, {6, A, B}, {6, B, A}, {A, B, 6}, {B, A, 6}, {6, 6, A}};
static void medium(int k)
{
    int shear = k % 2; for (int i = 0; i < n; i++) { vp[i] = shear ? 30 : VV[k][i]; vs[i] = shear ? VV[k][i] : 1.5; }
    for (int i = 1; i < n; i++) top[i] = top[i - 1] + cv_pos("thickness", 0.3, 6);
}
/* source and receiver in the same layer, thicknesses and distance arbitrary */
static void same_layer(int nl, int lay, int place)
{
    setup(nl); medium(cv_choose("velocities", 8));
    real_t zs, zr, r, h = lay < nl - 1 ? top[lay + 1] - top[lay] : 8;
    switch (place) {
    case 0: zs = zr = top[lay]; r = cv_pos("distance", 1, 60); break;
    case 1: zs = zr = top[lay] + h/2; r = cv_pos("distance", 1, 60); break;
    case 2: zs = top[lay] + h/4; zr = top[lay] + h; r = h; cv_tol(1e-9, 1e-3); break;  /* 3-4-5; the receiver on the interface up to rounding */
    case 3: zs = top[lay] + h/2; zr = top[lay] + h/4; r = h/3; break;
    default: zs = top[lay] + 3*h/4; zr = top[lay] + h/2; r = 0; break;
    }
    real_t tp, ts; compute(zs, zr, 1, &r, &tp, &ts);
    cv_eq("first P arrival", tp, first(vp, zs, zr, r, straight(vp, zs, zr, r))); cv_eq("first S arrival", ts, first(vs, zs, zr, r, straight(vs, zs, zr, r)));
}
/*@cv bounded=1 cost=6 */
void H_same_layer_top(void) { same_layer(3, 0, cv_choose("place", 5)); }
/*@cv bounded=1 cost=5 */
void H_same_layer_middle(void) { same_layer(3, 1, 1 + cv_choose("place", 4)); }
/*@cv bounded=1 cost=3 */
void H_same_layer_bottom(void) { same_layer(3, 2, 1 + cv_choose("place", 4)); }
/* direct ray through several layers: the distance is that of a listed ray parameter, plus a rest within the documented 1e-3 km */
static void across(int nl, int variant)
{
    static const real_t PP[3] = {0.5, 0.25, 0.75}, W[5][3] = {{4, 5, 8}, {8, 5, 6}, {5, 8, 3}, {6, 3, 9}, {7, 7, 4}};
    setup(nl); int k = cv_choose("velocities", 5); for (int i = 0; i < n; i++) { vp[i] = W[k][i]; vs[i] = 1; }
    static const real_t H[3] = {0.4, 3, 45}; for (int i = 1; i < nl; i++) top[i] = top[i - 1] + H[cv_choose("thickness", 3)];
    real_t a, b, vm = 0, p, X = 0, T = 0, eps = cv_real("rest", -0.0009, 0.0009); cv_assume_lt(-0.00099, eps); cv_assume_lt(eps, 0.00099);
    switch (variant) { case 0: a = top[1]/2; b = top[1] + 2; break; case 1: a = top[1]; b = top[2] + 1; break; default: a = 0; b = top[2] + 1; break; }
    for (int i = 0; i < n; i++) if (overlap(i, a, b) > 0 && vp[i] > vm) vm = vp[i];
    p = PP[variant == 0 ? cv_choose("ray", 3) : 0]/vm;
    for (int i = 0; i < n; i++) { real_t h = overlap(i, a, b); if (h <= 0) continue; real_t s = p*vp[i], q = sqrt(1 - s*s); X += h*s/q; T += h/(vp[i]*q); }
    int up = cv_choose("source_below", 2); real_t r = X + eps, tp, ts; compute(up ? b : a, up ? a : b, 1, &r, &tp, &ts);
    real_t t = first(vp, a, b, r, T + p*eps); cv_le("first arrival not late", tp, t + 1e-3*p); cv_le("first arrival not early", t - 1e-3*p, tp);
}
/*@cv bounded=1 cost=4 */
void H_across_two(void) { across(2, 0); }
/*@cv bounded=1 cost=5 */
void H_across_interface(void) { across(3, 1); }
/*@cv bounded=1 cost=5 */
void H_across_three(void) { across(3, 2); }
/* a liquid layer on the way: no arrival of that type; a liquid elsewhere does not carry the wave */
/*@cv bounded=1 */
void H_liquid(void)
{
    setup(3); int where = cv_choose("liquid_layer", 2), c = cv_choose("place", 2); static const real_t V[3] = {A, 6, B};
    for (int i = 0; i < 3; i++) { vp[i] = 6; vs[i] = i == where ? 0 : V[i]; } top[1] = cv_choose("thickness", 2) ? 0.5 : 4; top[2] = top[1] + 3;
    real_t zs = c ? top[2] + 3 : where ? top[1]/2 : top[1] + (top[2] - top[1])/2, zr = c ? top[2] + 3 : zs, r = cv_pos("distance", 1, 30), tp, ts; cv_assume_le(r, 1e5); int wet = cv_choose("receiver_in_liquid", 2);
    if (wet) zr = where ? top[1] + (top[2] - top[1])/2 : top[1]/2;
    if (wet) r = 0;
    compute(zs, zr, 1, &r, &tp, &ts);
    if (wet) cv_eq("no S arrival in the liquid", ts, NONE); else cv_eq("first S arrival", ts, first(vs, zs, zr, r, straight(vs, zs, zr, r)));
}
/* several distances in one call, P and S interleaved */
/*@cv bounded=1 */
void H_from_file(void)
{
    setup(2); static const real_t P[2] = {3, 5}, S[2] = {4, 5}, R[3] = {0, 6, 40}; for (int i = 0; i < 2; i++) { vp[i] = P[i]; vs[i] = S[i]/2; } top[1] = cv_pos("thickness", 2, 6); cv_assume_lt(2, top[1]);
    real_t tp[3], ts[3]; compute(1, 1, 3, R, tp, ts);
    for (int i = 0; i < 3; i++) { cv_eq("first P arrival", tp[i], first(vp, 1, 1, R[i], straight(vp, 1, 1, R[i]))); cv_eq("first S arrival", ts[i], first(vs, 1, 1, R[i], straight(vs, 1, 1, R[i]))); }
}
/* far away: a head wave that beats every direct path is the first arrival (points on interfaces included) */
/*@cv bounded=1 cost=5 */
void H_far(void)
{
    static const real_t W[6][3] = {{8, 5, 6}, {5, 4, 9}, {5, 5.01, 8}, {3, 8, 4}, {9, 4, 5}, {6, 8, 3}}, H[2] = {0.4, 12}, R[2] = {90, 700};
    setup(3); int k = cv_choose("velocities", 6), h = cv_choose("thickness", 2), g = cv_choose("places", 4), shear = cv_choose("shear", 2); real_t a, b, vm = 0, big = 1e9;
    for (int i = 0; i < n; i++) { vp[i] = shear ? 30 : W[k][i]; vs[i] = shear ? W[k][i] : 1; } top[1] = H[h]; top[2] = top[1] + H[1 - h];
    switch (g) { case 0: a = top[1]; b = top[1] + 0.25; break; case 1: a = top[1]; b = top[2] + 1; break; case 2: a = 0; b = top[1]; break; default: a = 0.125; b = top[2]; break; }
    for (int i = 0; i < n; i++) if (overlap(i, a, b) > 0 && W[k][i] > vm) vm = W[k][i];
    real_t r = R[cv_choose("distance", 2)], tp, ts, t = first(shear ? vs : vp, a, b, r, big); cv_assume_le(t, r/vm);
    int up = (g + k) % 2; compute(up ? b : a, up ? a : b, 1, &r, &tp, &ts); cv_eq("first arrival is the head wave", shear ? ts : tp, t);
}
