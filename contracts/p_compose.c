/* Composition of generalized reflection/transmission matrices and 2x2 complex algebra. */
#include "spec.h"

/* matrix inverse: succeeds exactly when det != 0, and then is two-sided; in-place use allowed */
void H_inv(void)
{
    cplx_t a[2][2], b[2][2];
    in22("a", a);
    S22 A = s_of(a);
    int alias = cv_choose("alias", 2);
    int st;
    if (alias) { memcpy(b, a, sizeof a); st = grt_cmat2x2_inv(b, b); } else st = grt_cmat2x2_inv(a, b);
    if (st == GRT_INVERSE_SUCCESS) {
        s_eq22("A*inv(A)=I", s_mul(A, s_of(b)), s_id());
        s_eq22("inv(A)*A=I", s_mul(s_of(b), A), s_id());
    } else cv_eq("failure only if singular", s_det(A), 0);
}
void H_inv_singular(void)
{   /* rank-deficient matrices are flagged and never divided by */
    cplx_t a[2][2], b[2][2];
    cplx_t p = cv_cplx("p", -1, 1), q = cv_cplx("q", -1, 1), r = cv_cplx("r", -1, 1);
    int w = cv_choose("which", 3);
    if (w == 0) { a[0][0] = 0; a[0][1] = 0; a[1][0] = p; a[1][1] = q; }
    else if (w == 1) { a[0][0] = 0; a[0][1] = p; a[1][0] = 0; a[1][1] = q; }
    else { a[0][0] = 0; a[0][1] = 0; a[1][0] = 0; a[1][1] = r; }
    int st = grt_cmat2x2_inv(a, b);
    cv_true("singular matrix is reported", st == GRT_INVERSE_FAILURE);
}
/* algebra: product/sum/scale; destination may alias an operand */
void H_algebra(void)
{
    cplx_t a[2][2], b[2][2], c[2][2];
    in22("a", a); in22("b", b);
    S22 A = s_of(a), B = s_of(b);
    int alias = cv_choose("alias", 3); /* 0: none, 1: dest = first, 2: dest = second */
    int op = cv_choose("op", 3);
    cplx_t (*d)[2] = alias == 0 ? c : alias == 1 ? a : b;
    if (op == 0) { grt_cmat2x2_mul(a, b, d); s_eq22("product", s_of(d), s_mul(A, B)); }
    if (op == 1) { grt_cmat2x2_add(a, b, d); s_eq22("sum", s_of(d), s_add(A, B)); }
    if (op == 2) { grt_cmat2x2_sub(a, b, d); s_eq22("difference", s_of(d), s_sub(A, B)); }
}
void H_algebra2(void)
{
    cplx_t a[2][2], d[2][2], x[2], y[2], k = cv_cplx("k", -1, 1);
    in22("a", a); x[0] = cv_cplx("x", -1, 1); x[1] = cv_cplx("x", -1, 1);
    S22 A = s_of(a); S21 X; X.v[0] = x[0]; X.v[1] = x[1];
    S21 Y = s_app(A, X);
    int alias = cv_choose("alias", 2);
    int op = cv_choose("op", 4);
    if (op == 0) { cplx_t (*q)[2] = alias ? a : d; grt_cmat2x2_k(a, k, q); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) cv_eq("scale", q[i][j], k*A.m[i][j]); }
    if (op == 1) { cplx_t *q = alias ? x : y; grt_cmat2x1_mul(a, x, q); cv_eq("apply0", q[0], Y.v[0]); cv_eq("apply1", q[1], Y.v[1]); }
    if (op == 2) { grt_cmat2x2_assign(a, d); s_eq22("assign", s_of(d), A); }
    if (op == 3) { grt_cmat2x2_one_sub(a); s_eq22("I-A", s_of(a), s_sub(s_id(), A)); }
}
/* general m x n helpers (sizes bounded), in-place products included */
void H_general_matrix(void)
{
    int m = cv_size("m", 1, 3, 4), n = cv_size("n", 1, 3, 4), p = cv_size("p", 1, 3, 4);
    cplx_t A[16], B[16], C[16], R[16];
    for (int i = 0; i < m*n; i++) A[i] = cv_cplx("A", -1, 1);
    for (int i = 0; i < n*p; i++) B[i] = cv_cplx("B", -1, 1);
    for (int i = 0; i < m; i++) for (int j = 0; j < p; j++) { cplx_t s = 0; for (int q = 0; q < n; q++) s += A[i*n+q]*B[q*p+j]; R[i*p+j] = s; }
    grt_cmatmxn_mul(m, n, p, (const cplx_t (*)[n])A, (const cplx_t (*)[p])B, (cplx_t (*)[p])C);
    for (int i = 0; i < m*p; i++) cv_eq("general product", C[i], R[i]);
}

/* The defining property: for arbitrary incident amplitudes d1 (from above) and u2 (from below), the composed
 * matrices map them to the outgoing amplitudes of the coupled system
 *   u1 = RD1 d1 + TU1 um,  dm = TD1 d1 + RU1 um,  um = RD2 dm + TU2 u2,  d2 = TD2 dm + RU2 u2. */
static void composed(RT_MATRIX *M1, RT_MATRIX *M2, RT_MATRIX *M, S22 RD, S22 RU, S22 TD, S22 TU, int which)
{
    /* parametrise by the intermediate field: um arbitrary combination is fixed by (dm,u2) and d1 by (dm,um) when TD1, TU2
       are treated as data, so instead verify the matrix equations that characterise the solution */
    S22 rd1 = s_of(M1->RD), ru1 = s_of(M1->RU), td1 = s_of(M1->TD), tu1 = s_of(M1->TU);
    S22 rd2 = s_of(M2->RD), ru2 = s_of(M2->RU), td2 = s_of(M2->TD), tu2 = s_of(M2->TU);
    (void)M;
    /* X = dm per unit d1, W = um per unit u2 : solve with Cramer's rule */
    S22 K = s_sub(s_id(), s_mul(ru1, rd2)), L = s_sub(s_id(), s_mul(rd2, ru1));
    cplx_t dk = s_det(K), dl = s_det(L);
    S22 Ka, La;
    Ka.m[0][0] = K.m[1][1]/dk; Ka.m[1][1] = K.m[0][0]/dk; Ka.m[0][1] = -K.m[0][1]/dk; Ka.m[1][0] = -K.m[1][0]/dk;
    La.m[0][0] = L.m[1][1]/dl; La.m[1][1] = L.m[0][0]/dl; La.m[0][1] = -L.m[0][1]/dl; La.m[1][0] = -L.m[1][0]/dl;
    S22 X = s_mul(Ka, td1), W = s_mul(La, tu2);
    if (which & 1) s_eq22("RD", RD, s_add(rd1, s_mul(tu1, s_mul(rd2, X))));
    if (which & 2) s_eq22("TD", TD, s_mul(td2, X));
    if (which & 4) s_eq22("RU", RU, s_add(ru2, s_mul(td2, s_mul(ru1, W))));
    if (which & 8) s_eq22("TU", TU, s_mul(tu1, W));
}
static void composedL(RT_MATRIX *M1, RT_MATRIX *M2, cplx_t RD, cplx_t RU, cplx_t TD, cplx_t TU, int which)
{
    cplx_t K = 1 - M1->RUL*M2->RDL;
    cplx_t X = M1->TDL/K, W = M2->TUL/K;
    if (which & 1) cv_eq("RDL", RD, M1->RDL + M1->TUL*M2->RDL*X);
    if (which & 2) cv_eq("TDL", TD, M2->TDL*X);
    if (which & 4) cv_eq("RUL", RU, M2->RUL + M2->TDL*M1->RUL*W);
    if (which & 8) cv_eq("TUL", TU, M1->TUL*W);
}
static int singular(RT_MATRIX *M1, RT_MATRIX *M2)
{
    S22 K = s_sub(s_id(), s_mul(s_of(M1->RU), s_of(M2->RD)));
    return s_det(K) == 0 || 1 - M1->RUL*M2->RDL == 0;
}
/* full composition; the result may overwrite the upper operand (as the layer recursion does) or the lower one */
void H_compose_full(void)
{
    RT_MATRIX M1, M2, M3, m1, m2;
    in_RT("1", &M1); in_RT("2", &M2); in_RT("3", &M3);
    m1 = M1; m2 = M2;
    int alias = cv_choose("alias", 2);
    RT_MATRIX *M = alias == 0 ? &M3 : &M1;
    grt_recursion_RT_matrix(&M1, &M2, M);
    if (M->stats == GRT_INVERSE_SUCCESS) {
        composed(&m1, &m2, M, s_of(M->RD), s_of(M->RU), s_of(M->TD), s_of(M->TU), 15);
        composedL(&m1, &m2, M->RDL, M->RUL, M->TDL, M->TUL, 15);
    } else cv_true("failure only if reverberation operator is singular", singular(&m1, &m2));
}
static void part(int which)
{
    RT_MATRIX M1, M2, M3, m1, m2;
    in_RT("1", &M1); in_RT("2", &M2); in_RT("3", &M3);
    m1 = M1; m2 = M2;
    int alias = cv_choose("alias", 3);
    RT_MATRIX *M = alias == 0 ? &M3 : alias == 1 ? &M1 : &M2;
    RT_MATRIX old = *M;
    if (which == 1) grt_recursion_RD(&M1, &M2, M);
    if (which == 2) grt_recursion_TD(&M1, &M2, M);
    if (which == 4) grt_recursion_RU(&M1, &M2, M);
    if (which == 8) grt_recursion_TU(&M1, &M2, M);
    if (M->stats == GRT_INVERSE_SUCCESS) {
        composed(&m1, &m2, M, s_of(M->RD), s_of(M->RU), s_of(M->TD), s_of(M->TU), which);
        composedL(&m1, &m2, M->RDL, M->RUL, M->TDL, M->TUL, which);
        /* the retained internal transmission operator: (I - RU1 RD2) invT = TD1, resp. (I - RD2 RU1) invT = TU2 */
        S22 ru1 = s_of(m1.RU), rd2 = s_of(m2.RD);
        if (which & 3) { s_eq22("internal transmission", s_mul(s_sub(s_id(), s_mul(ru1, rd2)), s_of(M->invT)), s_of(m1.TD));
                         cv_eq("internal transmission SH", (1 - m1.RUL*m2.RDL)*M->invTL, m1.TDL); }
        else           { s_eq22("internal transmission", s_mul(s_sub(s_id(), s_mul(rd2, ru1)), s_of(M->invT)), s_of(m2.TU));
                         cv_eq("internal transmission SH", (1 - m1.RUL*m2.RDL)*M->invTL, m2.TUL); }
        /* frame: the other three coefficient groups are untouched */
        if (which != 1) { s_eq22("frame RD", s_of(M->RD), s_of(old.RD)); cv_eq("frame RDL", M->RDL, old.RDL); }
        if (which != 2) { s_eq22("frame TD", s_of(M->TD), s_of(old.TD)); cv_eq("frame TDL", M->TDL, old.TDL); }
        if (which != 4) { s_eq22("frame RU", s_of(M->RU), s_of(old.RU)); cv_eq("frame RUL", M->RUL, old.RUL); }
        if (which != 8) { s_eq22("frame TU", s_of(M->TU), s_of(old.TU)); cv_eq("frame TUL", M->TUL, old.TUL); }
    } else cv_true("failure only if reverberation operator is singular", singular(&m1, &m2));
}
void H_compose_RD(void) { part(1); }
void H_compose_TD(void) { part(2); }
void H_compose_RU(void) { part(4); }
void H_compose_TU(void) { part(8); }
/* singular reverberation operator must be flagged (SH and P-SV) */
void H_compose_singular(void)
{
    RT_MATRIX M1, M2, M;
    in_RT("1", &M1); in_RT("2", &M2); grt_reset_RT_matrix(&M);
    int psv = cv_choose("psv", 2), f = cv_choose("fn", 5);
    if (psv) { M1.RU[0][0] = 1; M1.RU[0][1] = 0; M2.RD[0][0] = 1; M2.RD[0][1] = 0; }
    else { M1.RUL = 2; M2.RDL = 0.5; M1.RU[0][0] = M1.RU[0][1] = M1.RU[1][0] = M1.RU[1][1] = 0; }
    if (f == 0) grt_recursion_RD(&M1, &M2, &M);
    if (f == 1) grt_recursion_TD(&M1, &M2, &M);
    if (f == 2) grt_recursion_RU(&M1, &M2, &M);
    if (f == 3) grt_recursion_TU(&M1, &M2, &M);
    if (f == 4) grt_recursion_RT_matrix(&M1, &M2, &M);
    cv_true("singular stack flagged", M.stats == GRT_INVERSE_FAILURE);
}
/* neutral element: composing with the reset (transparent) interface changes nothing */
void H_compose_identity(void)
{
    RT_MATRIX M1, Id, M;
    in_RT("1", &M1); grt_reset_RT_matrix(&Id); grt_reset_RT_matrix(&M);
    int side = cv_choose("side", 2);
    if (side) grt_recursion_RT_matrix(&M1, &Id, &M); else grt_recursion_RT_matrix(&Id, &M1, &M);
    cv_true("defined", M.stats == GRT_INVERSE_SUCCESS);
    s_eq22("RD", s_of(M.RD), s_of(M1.RD)); s_eq22("RU", s_of(M.RU), s_of(M1.RU));
    s_eq22("TD", s_of(M.TD), s_of(M1.TD)); s_eq22("TU", s_of(M.TU), s_of(M1.TU));
    cv_eq("RDL", M.RDL, M1.RDL); cv_eq("RUL", M.RUL, M1.RUL); cv_eq("TDL", M.TDL, M1.TDL); cv_eq("TUL", M.TUL, M1.TUL);
}
/* associativity: grouping of layers does not matter */
void H_compose_assoc(void)
{
    RT_MATRIX A, B, C, AB, BC, L, R;
    in_RT("1", &A); in_RT("2", &B); in_RT("3", &C);
    grt_reset_RT_matrix(&AB); grt_reset_RT_matrix(&BC); grt_reset_RT_matrix(&L); grt_reset_RT_matrix(&R);
    grt_recursion_RT_matrix(&A, &B, &AB); cv_assume(AB.stats == GRT_INVERSE_SUCCESS);
    grt_recursion_RT_matrix(&B, &C, &BC); cv_assume(BC.stats == GRT_INVERSE_SUCCESS);
    grt_recursion_RT_matrix(&AB, &C, &L); cv_assume(L.stats == GRT_INVERSE_SUCCESS);
    grt_recursion_RT_matrix(&A, &BC, &R); cv_assume(R.stats == GRT_INVERSE_SUCCESS);
    s_eq22("RD", s_of(L.RD), s_of(R.RD)); s_eq22("RU", s_of(L.RU), s_of(R.RU));
    s_eq22("TD", s_of(L.TD), s_of(R.TD)); s_eq22("TU", s_of(L.TU), s_of(R.TU));
    cv_eq("RDL", L.RDL, R.RDL); cv_eq("RUL", L.RUL, R.RUL); cv_eq("TDL", L.TDL, R.TDL); cv_eq("TUL", L.TUL, R.TUL);
}
