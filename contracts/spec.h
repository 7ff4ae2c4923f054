/* specification-level helpers (mathematics only; no code of the repository is mirrored here) */
#pragma once
#include "cv.h"
#include "grt.h"
#include <string.h>
#include <stdlib.h>

typedef struct { cplx_t m[2][2]; } S22;
typedef struct { cplx_t v[2]; } S21;

static S22 s_of(const cplx_t a[2][2]) { S22 r; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) r.m[i][j] = a[i][j]; return r; }
static S22 s_mul(S22 a, S22 b) { S22 r; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) r.m[i][j] = a.m[i][0]*b.m[0][j] + a.m[i][1]*b.m[1][j]; return r; }
static S22 s_add(S22 a, S22 b) { S22 r; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) r.m[i][j] = a.m[i][j] + b.m[i][j]; return r; }
static S22 s_sub(S22 a, S22 b) { S22 r; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) r.m[i][j] = a.m[i][j] - b.m[i][j]; return r; }
static S22 s_id(void) { S22 r; r.m[0][0] = r.m[1][1] = 1; r.m[0][1] = r.m[1][0] = 0; return r; }
static S22 s_zero(void) { S22 r; r.m[0][0] = r.m[1][1] = 0; r.m[0][1] = r.m[1][0] = 0; return r; }
static S21 s_app(S22 a, S21 x) { S21 r; r.v[0] = a.m[0][0]*x.v[0] + a.m[0][1]*x.v[1]; r.v[1] = a.m[1][0]*x.v[0] + a.m[1][1]*x.v[1]; return r; }
static S21 s_vadd(S21 a, S21 b) { S21 r; r.v[0] = a.v[0]+b.v[0]; r.v[1] = a.v[1]+b.v[1]; return r; }
static void s_eq22(const char *n, S22 a, S22 b) { for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) cv_eq(n, a.m[i][j], b.m[i][j]); }
static void s_eq21(const char *n, S21 a, S21 b) { for (int i = 0; i < 2; i++) cv_eq(n, a.v[i], b.v[i]); }
static cplx_t s_det(S22 a) { return a.m[0][0]*a.m[1][1] - a.m[0][1]*a.m[1][0]; }
static void in22(const char *n, cplx_t a[2][2]) { for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) a[i][j] = cv_cplx(n, -1, 1); }

static void in_RT(const char *n, RT_MATRIX *M)
{
    (void)n;
    in22("RD", M->RD); in22("RU", M->RU); in22("TD", M->TD); in22("TU", M->TU);
    M->RDL = cv_cplx("RDL", -1, 1); M->RUL = cv_cplx("RUL", -1, 1); M->TDL = cv_cplx("TDL", -1, 1); M->TUL = cv_cplx("TUL", -1, 1);
    in22("invT", M->invT); M->invTL = cv_cplx("invTL", -1, 1);
    M->stats = GRT_INVERSE_SUCCESS;
}
static cplx_t s_detn(int n, const cplx_t *a)
{
    if (n == 1) return a[0];
    if (n == 2) return a[0]*a[3] - a[1]*a[2];
    cplx_t r = 0;
    for (int j = 0; j < n; j++) {
        cplx_t m[16]; int q = 0;
        for (int i = 1; i < n; i++) for (int l = 0; l < n; l++) if (l != j) m[q++] = a[i*n + l];
        cplx_t d = a[j]*s_detn(n - 1, m);
        r = (j % 2) ? r - d : r + d;
    }
    return r;
}
