/* P12: source time functions and time-domain processing of seismograms. */
#include "cv.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "grt/common/const.h"
#include "grt/dynamic/signals.h"
static float *x, *h, *y;           /* allocated to their exact length: neighbouring memory must not matter */
static void arr_(const char *nm, float **p, int n) { float *a = *p = malloc(n*sizeof(float)); for (int i = 0; i < n; i++) a[i] = (float)cv_real(nm, -2, 2); }
void H_convolve_linear(void)
{
    cv_tol(1e-4, 1e-4); int nx = cv_size("nx", 1, 3, 4), nh = cv_size("nh", 1, 4, 5), ny = cv_size("ny", 1, 4, 5); arr_("x", &x, nx); arr_("h", &h, nh); arr_("y", &y, ny);
    grt_oaconvolve(x, nx, h, nh, y, ny, false);
    for (int n = 0; n < ny; n++) { double r = 0; for (int i = 0; i < nx; i++) for (int j = 0; j < nh; j++) if (i + j == n) r += x[i]*h[j]; cv_eq("linear convolution", y[n], r); }
}
void H_convolve_circular(void)
{
    cv_tol(1e-4, 1e-4); int nx = cv_size("nx", 1, 3, 4), nh = cv_size("nh", 1, 5, 6); arr_("x", &x, nx); arr_("h", &h, nh); arr_("y", &y, nx);
    grt_oaconvolve(x, nx, h, nh, y, nx, true);
    for (int n = 0; n < nx; n++) { double r = 0; for (int i = 0; i < nx; i++) for (int j = 0; j < nh; j++) if ((i + j) % nx == n) r += x[i]*h[j]; cv_eq("circular convolution", y[n], r); }
}
void H_integrate(void)
{
    cv_tol(1e-4, 1e-4); int n = cv_size("n", 1, 4, 6); arr_("x", &x, n); y = malloc(n*sizeof(float)); for (int i = 0; i < n; i++) y[i] = x[i]; float dt = (float)cv_pos("dt", 0.1, 2);
    double area = 0;
    grt_trap_integral(y, n, dt); cv_eq("integral starts at zero", y[0], 0);
    for (int i = 1; i < n; i++) { area += 0.5*dt*(x[i - 1] + x[i]); cv_eq("cumulative trapezoidal integral", y[i], area); }
    cv_eq("area under the samples", grt_trap_area(x, n, dt), area);
}
void H_differentiate(void)
{
    cv_tol(1e-3, 1e-3); int n = cv_size("n", 2, 4, 6); arr_("x", &x, n); y = malloc(n*sizeof(float)); for (int i = 0; i < n; i++) y[i] = x[i]; float dt = (float)cv_pos("dt", 0.1, 2);
    grt_differential(y, n, dt);
    for (int i = 0; i < n; i++) { int a = i ? i - 1 : 0, b = i < n - 1 ? i + 1 : n - 1; cv_eq("difference quotient around each sample", y[i]*(b - a)*dt, x[b] - x[a]); }
}
/* ---- time functions */
static float dts(void) { int k = cv_choose("dt", 3); return k == 0 ? 0.5f : k == 1 ? 0.25f : 2.0f; }
/* duration on or safely off the sampling grid; returns the number of intervals covering it */
static int dur(const char *nm, float dt, int lo, int hi, float *t)
{
    int m = lo + cv_choose(nm, hi - lo + 1);
    if (cv_choose("on_grid", 2)) { *t = m*dt; return m; }
    double e = cv_real("fraction", 0.01, 0.99); cv_assume_lt(1e-4, e); cv_assume_lt(e, 1 - 1e-4); *t = (float)((m - 1 + e)*dt); return m;
}
static char pbuf[200];
static float *make(char type, float dt, int *nt)
{
    cv_true("parameters accepted", grt_check_tftype_tfparams(type, pbuf)); return grt_get_time_function(nt, dt, type, pbuf);
}
/*@cv concint=1 */
void H_parabola(void)
{
    cv_fs(); cv_tol(1e-4, 1e-4); float dt = dts(), t0; int m = dur("intervals", dt, 1, 4, &t0), nt; if (m == 1) cv_assume(0);
    sprintf(pbuf, "%.17g", t0); float *a = make(GRT_SIG_PARABOLA, dt, &nt);
    cv_true("length", nt == m + 1); for (int i = 0; i <= m; i++) cv_eq("parabola of height one over the rounded-up duration", a[i], 4.0*i*(m - i)/(m*m));
}
/*@cv concint=1 */
void H_trapezoid(void)
{
    cv_fs(); cv_tol(1e-4, 1e-4); float dt = dts(), t1, t2, t3; int tri = cv_choose("triangle", 2), a1, a2, a3, nt;
    a1 = dur("rise", dt, 1, 2, &t1); float g; a2 = tri ? 0 : dur("plateau", dt, 1, 2, &g); t2 = tri ? t1 : a1*dt + g; a3 = dur("fall", dt, 1, 2, &g); t3 = (tri ? a1*dt : (a1 + a2)*dt) + g;
    cv_assume_le(t1, t2); cv_assume_lt(t2, t3);
    sprintf(pbuf, "%.17g/%.17g/%.17g", t1, t2, t3); float *a = make(GRT_SIG_TRAPEZOID, dt, &nt);
    cv_true("length", nt == a1 + a2 + a3 + 1);
    for (int i = 0; i < nt; i++) cv_eq("trapezoid of height one", a[i], i < a1 ? (double)i/a1 : i <= a1 + a2 ? 1 : (double)(a1 + a2 + a3 - i)/a3);
}
/* a rise time of zero: plateau from the start */
void H_step(void)
{
    cv_fs(); cv_tol(1e-4, 1e-4); int nt; sprintf(pbuf, "0/%g/%g", 1.0, 2.0); float *a = make(GRT_SIG_TRAPEZOID, 0.5f, &nt);
    cv_true("length", nt == 5); for (int i = 0; i < 5; i++) cv_eq("plateau from the start", a[i], i < 3 ? 1 : (4 - i)/2.0);
}
/*@cv concint=1 */
void H_ricker(void)
{
    cv_fs(); cv_tol(1e-3, 1e-3); float dt = dts(), f0 = (float)cv_pos("f0", 0.2, 3); int nt; cv_assume_lt(0.2, f0*dt); 
    double r = f0*dt; cv_assume(r < 0.45 || r >= 0.5); if (r >= 0.5) cv_must_exit("a frequency above the Nyquist frequency is refused");
    sprintf(pbuf, "%.17g", f0); float *a = make(GRT_SIG_RICKER, dt, &nt); cv_true("covers twice the delay", nt >= 2 && (nt/2)*dt*f0 > 1 && nt % 2 == 0 && (nt/2 - 1)*dt*f0 <= 1);
    for (int i = 0; i < nt; i++) { double s = PI*f0*(i*(double)dt - 1/(double)f0); cv_eq("Ricker wavelet delayed by one period", a[i], (1 - 2*s*s)*exp(-s*s)); }
}
void H_custom(void)
{
    cv_fs(); cv_tol(1e-4, 1e-4); int n = cv_size("n", 0, 3, 4), nt; arr_("x", &x, n); FILE *f = fopen("tf", "w"); fprintf(f, "# head\n\n");
    for (int i = 0; i < n; i++) { fprintf(f, i % 2 ? "  %.17g\n" : "%.17g\n", x[i]); if (i == 1) fprintf(f, "# comment\n"); }
    fclose(f); strcpy(pbuf, "tf"); cv_true("file accepted", grt_check_tftype_tfparams(GRT_SIG_CUSTOM, pbuf)); if (!n) cv_must_exit("an empty time function is refused");
    float *a = grt_get_time_function(&nt, 0.1f, GRT_SIG_CUSTOM, pbuf); cv_true("one sample per line", nt == n); for (int i = 0; i < n; i++) cv_eq("sample", a[i], x[i]);
}
void H_refused(void)
{
    cv_fs(); static const struct { char t; const char *p; } bad[] = {{'p', "0"}, {'p', "-1"}, {'t', "-1/2/3"}, {'t', "2/1/3"}, {'t', "1/3/2"}, {'t', "1/2/2"}, {'t', "0/0/0"}, {'r', "0"}, {'r', "-2"}, {'0', "nofile"}, {'q', "1"}, {'p', "x"}, {'t', "1/2"}, {'r', ""}};
    int k = cv_choose("case", 14); if (k < 11) { cv_must_exit("invalid time function is refused"); grt_check_tftype_tfparams(bad[k].t, bad[k].p); } else cv_true("malformed parameters are rejected", !grt_check_tftype_tfparams(bad[k].t, bad[k].p));
}
