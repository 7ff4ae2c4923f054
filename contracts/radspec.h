/* Specification of source radiation: moment tensor (north, east, down) or force, seen in the ray frame
 * (r away from the source, t clockwise from r, z down); rows of R: EX VF HF DD DS SS, columns: Z R T. */
#pragma once
#include <string.h>
static void ray(real_t az, real_t B[3][3]) { real_t c = cos(az), s = sin(az); B[0][0] = c; B[0][1] = s; B[0][2] = 0; B[1][0] = -s; B[1][1] = c; B[1][2] = 0; B[2][0] = 0; B[2][1] = 0; B[2][2] = 1; }
static void spec_MT(real_t az, real_t M[3][3], real_t mult, realChnlGrid R)
{
    real_t B[3][3], T[3][3]; ray(az, B);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { T[i][j] = 0; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) T[i][j] += B[i][a]*M[a][b]*B[j][b]; }
    memset(R, 0, sizeof(realChnlGrid));
    real_t rr = T[0][0], tt = T[1][1], zz = T[2][2];
    R[0][0] = R[0][1] = mult*(rr + tt + zz)/3;
    R[3][0] = R[3][1] = mult*(2*zz - rr - tt)/6;
    R[4][0] = R[4][1] = -mult*T[0][2]; R[4][2] = -mult*T[1][2];
    R[5][0] = R[5][1] = mult*(rr - tt)/2; R[5][2] = mult*T[0][1];
}
static void spec_F(real_t az, const real_t F[3], real_t mult, realChnlGrid R)
{
    real_t B[3][3], f[3]; ray(az, B); for (int i = 0; i < 3; i++) { f[i] = 0; for (int j = 0; j < 3; j++) f[i] += B[i][j]*F[j]; }
    memset(R, 0, sizeof(realChnlGrid));
    R[1][0] = R[1][1] = mult*f[2]; R[2][0] = R[2][1] = mult*f[0]; R[2][2] = mult*f[1];
}
/* slip vector, fault normal of (strike, dip, rake), Aki & Richards, in (north, east, down) */
static void fault(real_t st, real_t dp, real_t rk, real_t d[3], real_t n[3])
{
    d[0] = cos(rk)*cos(st) + cos(dp)*sin(rk)*sin(st); d[1] = cos(rk)*sin(st) - cos(dp)*sin(rk)*cos(st); d[2] = -sin(rk)*sin(dp);
    n[0] = -sin(dp)*sin(st); n[1] = sin(dp)*cos(st); n[2] = -cos(dp);
}
