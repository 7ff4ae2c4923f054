/* P09: coordinate rotations of vectors, symmetric tensors and displacement gradients between (z, r, theta) and (z, x, y).
 * Specification: orthogonal change of basis; the gradient by the chain rule including the turning of the basis vectors. */
#include "cv.h"
#include <string.h>
#include <tgmath.h>
#include "grt/common/const.h"
#include "grt/common/coord.h"
static void basis(real_t th, real_t B[3][3]) { real_t c = cos(th), s = sin(th); memset(B, 0, 9*sizeof(real_t)); B[0][0] = 1; B[1][1] = c; B[1][2] = s; B[2][1] = -s; B[2][2] = c; }
void H_rot_vec(void)
{
    real_t th = cv_real("theta", -7, 7), A[3], S[3], B[3][3]; for (int i = 0; i < 3; i++) A[i] = cv_real("v", -2, 2); basis(th, B);
    for (int i = 0; i < 3; i++) { S[i] = 0; for (int j = 0; j < 3; j++) S[i] += B[i][j]*A[j]; }
    grt_rot_zxy2zrt_vec(th, A); for (int i = 0; i < 3; i++) cv_eq("vector components in the turned basis", A[i], S[i]);
}
void H_rot_tensor(void)
{
    real_t th = cv_real("theta", -7, 7), A[6], B[3][3], T[3][3]; for (int i = 0; i < 6; i++) A[i] = cv_real("t", -2, 2); basis(th, B);
    T[0][0] = A[0]; T[0][1] = T[1][0] = A[1]; T[0][2] = T[2][0] = A[2]; T[1][1] = A[3]; T[1][2] = T[2][1] = A[4]; T[2][2] = A[5];
    grt_rot_zxy2zrt_symtensor2odr(th, A);
    int k = 0; for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) { real_t s = 0; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) s += B[i][a]*T[a][b]*B[j][b]; cv_eq("tensor components in the turned basis", A[k++], s); }
}
static real_t th, r, u[3], g[3][3];
static void in(int zero)
{
    th = cv_real("theta", -7, 7); r = zero ? 0 : cv_pos("r_cm", 1e5, 1e7); if (!zero) cv_assume_lt(1e-8, r*1e-5); cv_tol(1e-6, 1e-9);
    for (int i = 0; i < 3; i++) u[i] = cv_real("u", -2, 2)*(zero ? 1 : r); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) g[i][j] = cv_real("g", -2, 2);
}
void H_rot_gradient(void)
{   /* g[i][j]: derivative i (z, r, (1/r) theta) of component j (z, r, theta), components not differentiated along with the basis */
    int zero = cv_choose("zero_distance", 2); in(zero); real_t B[3][3], S[3][3], v[3], c[3][3]; basis(th, B);
    real_t ur = zero ? g[1][1] : u[1]/r, ut = zero ? g[1][2] : u[2]/r;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) c[i][j] = g[i][j];
    c[2][1] -= ut; c[2][2] += ur;       /* d e_r = e_t dtheta, d e_t = -e_r dtheta */
    for (int i = 0; i < 3; i++) { v[i] = 0; for (int a = 0; a < 3; a++) v[i] += B[a][i]*u[a]; }
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { S[i][j] = 0; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) S[i][j] += B[a][i]*c[a][b]*B[b][j]; }
    grt_rot_zrt2zxy_upar(th, u, g, r);
    for (int i = 0; i < 3; i++) { cv_eq("displacement", u[i], v[i]); for (int j = 0; j < 3; j++) cv_eq("displacement gradient", g[i][j], S[i][j]); }
}
void H_rot_gradient_inverse(void)
{
    int zero = cv_choose("zero_distance", 2); in(zero); real_t u0[3], g0[3][3]; memcpy(u0, u, sizeof u); memcpy(g0, g, sizeof g);
    grt_rot_zxy2zrt_upar(th, u, g, r); grt_rot_zrt2zxy_upar(th, u, g, r);
    for (int i = 0; i < 3; i++) { cv_eq("there and back", u[i], u0[i]); for (int j = 0; j < 3; j++) cv_eq("there and back (gradient)", g[i][j], g0[i][j]); }
}
