/* P14: searching, ordering and bracketing of sampled coordinates; number lists and receiver point files. */
#include "cv.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <math.h>
#include "grt/common/const.h"
#include "grt/common/search.h"
#include "grt/common/util.h"
#include "grt/static/recv_points.h"
#define NA 6
static real_t *a, *b; static int n;           /* allocated to their exact length */
static void room(void) { a = malloc(n*sizeof(real_t)); b = malloc(n*sizeof(real_t)); }
static void arr(const char *nm, int lo, int hi, int hit) { n = cv_size("n", lo, hi, hit); room(); for (int i = 0; i < n; i++) { a[i] = cv_real(nm, -3, 3); if (cv_choose("on_grid", 2)) a[i] = cv_choose("value", 3); } }
static void plain(const char *nm, int lo, int hi, int hit) { n = cv_size("n", lo, hi, hit); room(); for (int i = 0; i < n; i++) a[i] = cv_real(nm, -3, 3); }
/*@cv maxpaths=8000 */
void H_find_element(void)
{
    plain("a", 0, 3, 4); real_t t = cv_real("target", -3, 3); if (n && cv_choose("member", 2)) t = a[cv_choose("which", n)];
    long r = grt_findElement_real_t(a, n, t); int f = -1; for (int i = n - 1; i >= 0; i--) if (a[i] == t) f = i;
    cv_true("first equal element or -1", r == f);
    int m = cv_size("m", 0, 3, 4); size_t *s = malloc(m*sizeof(size_t)); for (int i = 0; i < m; i++) s[i] = cv_choose("s", 3); size_t q = cv_choose("q", 3);
    f = -1; for (int i = m - 1; i >= 0; i--) if (s[i] == q) f = i;
    cv_true("first equal index or -1", grt_findElement_size_t(s, m, q) == f);
}
void H_find_closest(void)
{
    plain("a", 1, 3, 4); real_t t = cv_real("target", -3, 3);
    size_t r = grt_findClosest_real_t(a, n, t); cv_true("closest: valid index", r < (size_t)n); if (r >= (size_t)n) return;
    for (int i = 0; i < n; i++) { cv_le("closest", fabs(t - a[r]), fabs(t - a[i])); if (i < (int)r) cv_lt("first of equally close ones", fabs(t - a[r]), fabs(t - a[i])); }
}
void H_find_less_equal(void)
{
    plain("a", 0, 3, 4); real_t t = cv_real("target", -3, 3);
    long r = grt_findLessEqualClosest_real_t(a, n, t); cv_true("valid index or -1", r >= -1 && r < n);
    for (int i = 0; i < n; i++) if (a[i] <= t) { cv_true("found", r >= 0); if (r >= 0) cv_le("largest not above the target", a[i], a[r]); }
    if (r >= 0) cv_le("not above the target", a[r], t);
}
void H_min_max(void)
{
    plain("a", 1, 4, 5); size_t lo = grt_findMin_real_t(a, n), hi = grt_findMax_real_t(a, n); cv_true("valid indices", lo < (size_t)n && hi < (size_t)n);
    for (int i = 0; i < n; i++) { cv_le("minimum", a[lo], a[i]); cv_le("maximum", a[i], a[hi]); if (i < (int)lo) cv_lt("first minimum", a[lo], a[i]); if (i < (int)hi) cv_lt("first maximum", a[i], a[hi]); }
}
void H_compare(void)
{
    real_t x = cv_real("x", -2, 2), y = cv_real("y", -2, 2); if (cv_choose("equal", 2)) y = x;
    int c = grt_compare_real_t(&x, &y); cv_true("comparison", x < y ? c < 0 : x > y ? c > 0 : c == 0);
    float f = (float)x, g = (float)y; c = grt_compare_float(&f, &g); cv_true("comparison of floats", f < g ? c < 0 : f > g ? c > 0 : c == 0);
    size_t s = cv_choose("s", 3), t = cv_choose("t", 3); c = grt_compare_size_t(&s, &t); cv_true("comparison of indices", s < t ? c < 0 : s > t ? c > 0 : c == 0);
    real_t v[2] = {x, y}; size_t i = 0, j = 1; c = grt_argcompare_real_t(&i, &j, v); cv_true("comparison through indices", x < y ? c < 0 : x > y ? c > 0 : c == 0);
}
/* bounded ordered list: the capacity smallest (largest) elements in order */
/*@cv maxpaths=8000 */
void H_insert_ordered(void)
{
    int asc = cv_choose("ascending", 2), cap = cv_size("capacity", 1, 3, 4); n = cv_size("n", 0, 3, 4); cv_assume(n <= cap); size_t sz = n, cp = cap; a = malloc(cap*sizeof(real_t)); b = malloc(cap*sizeof(real_t));
    for (int i = 0; i < n; i++) { a[i] = b[i] = cv_real("a", -3, 3); if (i) { if (asc) cv_assume_le(a[i - 1], a[i]); else cv_assume_le(a[i], a[i - 1]); } }
    real_t t = cv_real("target", -3, 3); long r = grt_insertOrdered(a, &sz, cp, &t, sizeof(real_t), asc, grt_compare_real_t);
    if (r < 0) { cv_true("refused only when full", n == cap && r == -1 && (int)sz == n); if (n) { if (asc) cv_le("refused only if not better", a[n - 1], t); else cv_le("refused only if not better", t, a[n - 1]); } for (int i = 0; i < n; i++) cv_eq("refusal leaves the list unchanged", a[i], b[i]); return; }
    cv_true("size", (int)sz == (n < cap ? n + 1 : cap)); cv_true("position inside the list", r < (long)sz); cv_eq("element at the returned position", a[r], t);
    for (int i = 0; i < (int)sz; i++) { if (i != r) cv_eq("other elements kept in order", a[i], b[i < r ? i : i - 1]); if (i) { if (asc) cv_le("sorted", a[i - 1], a[i]); else cv_le("sorted", a[i], a[i - 1]); } }
}
void H_argsort(void)
{
    plain("a", 0, 3, 4); size_t *ix = malloc(n*sizeof(size_t)); int rc = grt_argsort(a, n, sizeof(real_t), grt_compare_real_t, ix); cv_true("success", rc == 0);
    int seen[NA] = {0}; for (int i = 0; i < n; i++) { cv_true("index range", ix[i] < (size_t)n); if (ix[i] >= (size_t)n) return; seen[ix[i]]++; }
    for (int i = 0; i < n; i++) { cv_true("permutation", seen[i] == 1); if (i) { cv_le("ascending", a[ix[i - 1]], a[ix[i]]); if (a[ix[i - 1]] == a[ix[i]]) cv_true("stable", ix[i - 1] < ix[i]); } }
    if (n) { cv_true("invalid arguments refused", grt_argsort(NULL, n, sizeof(real_t), grt_compare_real_t, ix) < 0 && grt_argsort(a, n, 0, grt_compare_real_t, ix) < 0 && grt_argsort(a, n, sizeof(real_t), NULL, ix) < 0 && grt_argsort(a, n, sizeof(real_t), grt_compare_real_t, NULL) < 0); }
}
/* bracketing for linear interpolation (tolerance 1e-8 at both ends and at the samples) */
/*@cv maxpaths=8000 */
void H_locate(void)
{
    n = cv_size("n", 1, 4, 5); room(); for (int i = 0; i < n; i++) { a[i] = cv_real("x", -1, 1) + i; if (i) cv_assume_lt(a[i - 1] + 1e-6, a[i]); }
    real_t q = cv_real("q", -1, n); if (cv_choose("at_sample", 2)) q = a[cv_choose("which", n)]; 
    size_t i = 99, j = 99; real_t w = 7; const real_t tol = 1e-8; int ok = grt_locateLinearInterp(a, n, q, &i, &j, &w);
    if (q < a[0] - tol || q > a[n - 1] + tol) { cv_true("outside the samples refused", !ok); return; }
    cv_true("inside the samples accepted", ok); if (!ok) return;
    cv_true("neighbouring samples", i < (size_t)n && j < (size_t)n && (j == i || j == i + 1)); if (i >= (size_t)n || j >= (size_t)n) return;
    if (i == j) { cv_eq("one sample: weight", w, 0); cv_le("one sample: within the tolerance", a[i] - tol, q); cv_le("one sample: within the tolerance", q, a[i] + tol); return; }
    cv_eq("interpolation of the coordinates", (1 - w)*a[i] + w*a[j], q); cv_le("no extrapolation below", a[i] - tol, q); cv_le("no extrapolation above", q, a[j] + tol);
}
void H_locate_arguments(void)
{
    real_t x[2] = {0, 1}, w; size_t i, j;
    cv_true("missing arguments refused", !grt_locateLinearInterp(NULL, 2, 0, &i, &j, &w) && !grt_locateLinearInterp(x, 0, 0, &i, &j, &w) && !grt_locateLinearInterp(x, 2, 0, NULL, &j, &w) && !grt_locateLinearInterp(x, 2, 0, &i, NULL, &w) && !grt_locateLinearInterp(x, 2, 0, &i, &j, NULL));
}
/* ---- number lists */
static char text[400];
void H_list_comma(void)
{
    cv_tol(1e-12, 1e-12); n = cv_size("n", 1, 3, 4); room(); char *p = text; for (int i = 0; i < n; i++) { a[i] = cv_real("value", -0.5, 4); p += sprintf(p, i ? ",%.17g" : "%.17g", a[i]); }
    int bad = 0; for (int i = 0; i < n; i++) if (a[i] < 0 || (i && !(a[i] > a[i - 1]))) bad = 1;
    if (bad) cv_must_exit("negative or non-ascending list refused");
    size_t m = 0; char **s = NULL; real_t *v = grt_parse_real_array(text, &m, cv_choose("keep_text", 2) ? &s : NULL, 'R');
    cv_true("number of values", m == (size_t)n); for (int i = 0; i < n; i++) { cv_eq("value", v[i], a[i]); if (s) { double t; sscanf(s[i], "%lf", &t); cv_eq("text of the value", t, a[i]); } }
}
/*@cv native=1 concint=1 */
void H_list_range(void)
{
    cv_tol(1e-9, 1e-9); n = cv_size("n", 1, 4, 6); int k = cv_choose("step", 4); static const real_t st[4] = {0.1, 0.25, 0.07, 3}; real_t x = cv_choose("start", 5)*0.3, d = st[k], r = cv_choose("rest", 2)*0.4*d;
    sprintf(text, "%.15g/%.15g/%.15g", x, x + (n - 1)*d + r, d);
    size_t m = 0; char **s = NULL; real_t *v = grt_parse_real_array(text, &m, &s, 'R'); cv_true("number of values", m == (size_t)n);
    for (int i = 0; i < n && i < (int)m; i++) { cv_eq("value", v[i], x + i*d); double t; sscanf(s[i], "%lf", &t); cv_eq("text of the value", t, x + i*d); }
}
void H_list_range_refused(void)
{
    static const char *bad[] = {"0/3/0", "0/3/-1", "4/3/1", "-1/3/1", "", ",", "0/3", "nofile"}; cv_fs(); size_t m; cv_must_exit("invalid list refused"); grt_parse_real_array(bad[cv_choose("case", 8)], &m, NULL, 'R');
}
void H_list_file(void)
{
    cv_fs(); cv_tol(1e-12, 1e-12); n = cv_size("n", 1, 3, 4); room(); FILE *f = fopen("lst", "w"); real_t t = 0; int crlf = cv_choose("crlf", 2);
    for (int i = 0; i < n; i++) { t += cv_pos("step", 0.1, 2); a[i] = t; fprintf(f, crlf ? "%.17g\r\n" : "%.17g\n", t); } fclose(f);
    size_t m = 0; char **s = NULL; real_t *v = grt_parse_real_array("lst", &m, &s, 'R'); cv_true("number of values", m == (size_t)n);
    for (int i = 0; i < n; i++) { cv_eq("value", v[i], a[i]); cv_true("no line end in the text", !strchr(s[i], '\r') && !strchr(s[i], '\n')); }
}
/* ---- small text helpers */
void H_text(void)
{
    static const char *S[] = {"", "   ", "# c", "  # c", "a", " \t\n", "1 # c", "\n"}; static const int E_[] = {1, 1, 1, 1, 0, 1, 0, 1};
    for (int i = 0; i < 8; i++) cv_true("comment or empty line", grt_is_comment_or_empty(S[i]) == E_[i]);
    static const char *C[] = {"a b c", "  a  b", "a", "", "   ", "a,b, c"}; static const int N[] = {3, 2, 1, 0, 0, 3};
    for (int i = 0; i < 6; i++) cv_true("number of columns", grt_string_ncols(C[i], ", ") == N[i]);
    cv_true("allowed characters", grt_string_composed_of("12", "123") && !grt_string_composed_of("124", "123") && grt_string_composed_of("", "1"));
    size_t k; char **t = grt_string_split("ab,,c,", ",", &k); cv_true("split", k == 2 && !strcmp(t[0], "ab") && !strcmp(t[1], "c"));
    cv_true("base name", !strcmp(grt_get_basename("a/b/c"), "c") && !strcmp(grt_get_basename("c"), "c") && !strcmp(grt_get_basename("a/"), ""));
    char z[] = "ab \t\n"; grt_trim_whitespace(z); cv_true("trailing blanks removed", !strcmp(z, "ab"));
}
void H_copy_file(void)
{
    cv_fs(); int len = cv_size("length", 0, 3, 5); FILE *f = fopen("src", "wb"); for (int i = 0; i < len; i++) fputc(i*40 % 256, f); fclose(f);
    if (cv_choose("existing", 2)) { f = fopen("dst", "wb"); fprintf(f, "longer old contents"); fclose(f); }
    int same = cv_choose("same", 2); grt_copy_file("src", same ? "src" : "dst"); f = fopen(same ? "src" : "dst", "rb");
    for (int i = 0; i < len; i++) cv_true("copied byte", fgetc(f) == i*40 % 256);
    cv_true("copied length", fgetc(f) == EOF); fclose(f);
}
/* ---- receiver points */
void H_recv_grid(void)
{
    int nn = cv_size("nnorth", 1, 3, 4), ne = cv_size("neast", 1, 3, 4); a = malloc(nn*sizeof(real_t)); b = malloc(ne*sizeof(real_t)); for (int i = 0; i < nn; i++) a[i] = cv_real("north", -3, 3); for (int i = 0; i < ne; i++) b[i] = cv_real("east", -3, 3);
    real_t z = cv_real("depth", -1, 3); if (z < 0) cv_must_exit("negative receiver depth refused");
    GRT_RECV_POINTS *p = grt_recv_points_from_grid(nn, a, ne, b, z); cv_true("size", p->npts == (size_t)nn*ne && p->nnorth == (size_t)nn && p->neast == (size_t)ne && p->is_grid && !p->has_geometry);
    for (int i = 0; i < nn; i++) for (int j = 0; j < ne; j++) { int k = j + i*ne; cv_eq("north", p->norths[k], a[i]); cv_eq("east", p->easts[k], b[j]); cv_eq("depth", p->depths[k], z); }
}
void H_recv_grid_empty(void) { real_t x[1] = {0}; cv_must_exit("empty receiver grid refused"); switch (cv_choose("case", 4)) { case 0: grt_recv_points_from_grid(0, x, 1, x, 0); break; case 1: grt_recv_points_from_grid(1, x, 0, x, 0); break; case 2: grt_recv_points_from_grid(1, NULL, 1, x, 0); break; default: grt_recv_points_from_grid(1, x, 1, NULL, 0); } }
void H_recv_file(void)
{
    cv_fs(); cv_tol(1e-12, 1e-12); n = cv_size("points", 1, 2, 3); int nc = cv_choose("geometry", 2) ? 6 : 3, bad = 0; real_t v[4][6]; FILE *f = fopen("q", "w"); fprintf(f, "# north east depth\n\n");
    for (int i = 0; i < n; i++) { for (int c = 0; c < nc; c++) { v[i][c] = cv_real("v", -2, 3); fprintf(f, c ? " %.17g" : "  %.17g", v[i][c]); } if (v[i][2] < 0) bad = 1; fprintf(f, i ? " # note\n" : "\n\n"); }
    fclose(f); if (bad) cv_must_exit("negative receiver depth refused");
    GRT_RECV_POINTS *p = grt_recv_points_from_file("q"); cv_true("size", p->npts == (size_t)n && !p->is_grid && p->has_geometry == (nc == 6));
    for (int i = 0; i < n; i++) { cv_eq("north", p->norths[i], v[i][0]); cv_eq("east", p->easts[i], v[i][1]); cv_eq("depth", p->depths[i], v[i][2]); if (nc == 6) { cv_eq("strike", p->strikes[i], v[i][3]); cv_eq("dip", p->dips[i], v[i][4]); cv_eq("rake", p->rakes[i], v[i][5]); } }
}
void H_recv_file_refused(void)
{
    static const char *bad[] = {"1 2\n", "1 2 3 4\n", "1 2 3 4 5\n", "1 2 3 4 5 6 7\n", "1 2 x\n", "1 2 3\n1 2 3 4 5 6\n", "1 2 3 4 5 6\n1 2 3\n", "# none\n", "", "1 2 3x\n", "1 2 nan\n"};
    cv_fs(); FILE *f = fopen("q", "w"); fprintf(f, "%s", bad[cv_choose("case", 11)]); fclose(f); cv_must_exit("malformed receiver file refused"); grt_recv_points_from_file("q");
}
