/* P03: elastostatic interface / boundary coefficients */
#include "static_medium.h"

void H_static_fields(void)
{   /* lemma: the specification fields are solutions */
    MODEL1D_STATE *st = smed_new(1); smed_layer(st, 0);
    cv_tol(1e-6, 1e-7);
    real_t z = cv_real("z", 0, 1);
    cplx_t F[4][4]; sspec_F(st, 0, z, F);
    cplx_t k = st->k, mu = st->mu[0], lam = st->lambda[0];
    for (int j = 0; j < 4; j++) {
        cplx_t wz = cv_diff(F[1][j], "z"), qz = cv_diff(F[0][j], "z");
        cv_eq("constitutive sR", F[2][j], (lam + 2*mu)*wz - lam*k*F[0][j]);
        cv_eq("constitutive sV", F[3][j], mu*(qz + k*F[1][j]));
        cplx_t sh = -(lam + 2*mu)*k*F[0][j] + lam*wz;
        cv_eq("equilibrium: horizontal", cv_diff(F[3][j], "z"), -k*sh);
        cv_eq("equilibrium: vertical", cv_diff(F[2][j], "z"), k*F[3][j]);
    }
}
void H_static_interface(void)
{
    MODEL1D_STATE *st = smed_new(2); smed_layer(st, 0); smed_layer(st, 1);
    RT_MATRIX M; in_RT("M", &M);
    grt_static_RT_matrix_PSV(st, 1, &M);
    grt_static_RT_matrix_SH(st, 1, &M);
    grt_static_delay_RT_matrix(st, 1, &M);
    cv_true("never fails", M.stats == GRT_INVERSE_SUCCESS);
    cplx_t F1[4][4], F2[4][4], T1[2][2], T2[2][2];
    sspec_F(st, 0, st->mod1d->Thk[0], F1); sspec_F(st, 1, 0, F2); sspec_T(st, 0, st->mod1d->Thk[0], T1); sspec_T(st, 1, 0, T2);
    for (int c = 0; c < 4; c++) {
        cplx_t up1[2], dn1[2], up2[2], dn2[2];
        for (int i = 0; i < 2; i++) {
            if (c < 2) { dn1[i] = i == c; up2[i] = 0; up1[i] = M.RD[i][c]; dn2[i] = M.TD[i][c]; }
            else { dn1[i] = 0; up2[i] = i == c-2; up1[i] = M.TU[i][c-2]; dn2[i] = M.RU[i][c-2]; }
        }
        for (int r = 0; r < 4; r++) {
            cplx_t a = F1[r][0]*up1[0] + F1[r][1]*up1[1] + F1[r][2]*dn1[0] + F1[r][3]*dn1[1];
            cplx_t b = F2[r][0]*up2[0] + F2[r][1]*up2[1] + F2[r][2]*dn2[0] + F2[r][3]*dn2[1];
            cv_eq(r == 0 ? "horizontal displacement continuous" : r == 1 ? "vertical displacement continuous" :
                  r == 2 ? "normal traction continuous" : "shear traction continuous", a, b);
        }
    }
    for (int r = 0; r < 2; r++) {
        cv_eq("SH continuity (down)", T1[r][0]*M.RDL + T1[r][1], T2[r][1]*M.TDL);
        cv_eq("SH continuity (up)", T1[r][0]*M.TUL, T2[r][0] + T2[r][1]*M.RUL);
    }
}
void H_static_boundary(void)
{
    MODEL1D_STATE *st = smed_new(3); smed_layer(st, 0); smed_layer(st, 1); smed_layer(st, 2);
    int b = cv_choose("bound", 3), bot = cv_choose("bottom", 2);
    MODEL1D *mod = st->mod1d;
    GRT_BOUND_TYPE ty = b == 0 ? GRT_BOUND_FREE : b == 1 ? GRT_BOUND_RIGID : GRT_BOUND_HALFSPACE;
    mod->topbound = bot ? GRT_BOUND_FREE : ty; mod->botbound = bot ? ty : GRT_BOUND_HALFSPACE;
    in_RT("top", &st->M_top); in_RT("bot", &st->M_bot);
    cplx_t F[4][4], T[2][2];
    if (!bot) {
        grt_static_topbound_RU_PSV(st); cv_true("success", st->M_top.stats == GRT_INVERSE_SUCCESS);
        grt_static_topbound_RU_SH(st); cv_true("success", st->M_top.stats == GRT_INVERSE_SUCCESS);
        sspec_F(st, 0, 0, F); sspec_T(st, 0, 0, T);
    } else {
        grt_static_botbound_RD_PSV(st); cv_true("success", st->M_bot.stats == GRT_INVERSE_SUCCESS);
        grt_static_botbound_RD_SH(st); cv_true("success", st->M_bot.stats == GRT_INVERSE_SUCCESS);
        sspec_F(st, 1, mod->Thk[1], F); sspec_T(st, 1, mod->Thk[1], T);
    }
    cplx_t (*R)[2] = bot ? st->M_bot.RD : st->M_top.RU, RL = bot ? st->M_bot.RDL : st->M_top.RUL;
    int in = bot ? 2 : 0, out = bot ? 0 : 2;
    if (b < 2) {
        for (int c = 0; c < 2; c++) for (int r = 0; r < 2; r++) {
            int row = b == 0 ? 2 + r : r;
            cv_eq(b == 0 ? "traction vanishes on a free boundary" : "displacement vanishes on a rigid boundary",
                  F[row][in+c] + F[row][out]*R[0][c] + F[row][out+1]*R[1][c], 0);
        }
        int row = b == 0 ? 1 : 0;
        cv_eq(b == 0 ? "SH traction vanishes on a free boundary" : "SH displacement vanishes on a rigid boundary", T[row][in/2] + T[row][out/2]*RL, 0);
    } else if (!bot) {
        for (int c = 0; c < 2; c++) for (int r = 0; r < 2; r++) cv_eq("open top reflects nothing", R[r][c], 0);
        cv_eq("open top reflects nothing", RL, 0);
    } else {
        cplx_t G[4][4], U[2][2]; sspec_F(st, 2, 0, G); sspec_T(st, 2, 0, U);
        for (int c = 0; c < 2; c++) {    /* total field at the interface is a combination of the two decaying half-space fields: 3x3 minors vanish */
            cplx_t v[4]; for (int r = 0; r < 4; r++) v[r] = F[r][2+c] + F[r][0]*R[0][c] + F[r][1]*R[1][c];
            for (int omit = 0; omit < 4; omit++) {
                cplx_t A[9]; int n = 0;
                for (int r = 0; r < 4; r++) if (r != omit) { A[n++] = v[r]; A[n++] = G[r][2]; A[n++] = G[r][3]; }
                cv_eq("radiates only downward into the half-space", s_detn(3, A), 0);
            }
        }
        cv_eq("SH radiates only downward", (T[0][1] + T[0][0]*RL)*U[1][1] - (T[1][1] + T[1][0]*RL)*U[0][1], 0);
    }
}
void H_static_receiver(void)
{
    MODEL1D_STATE *st = smed_new(2); smed_layer(st, 0); smed_layer(st, 1);
    int up = cv_choose("receiver_above_source", 2), ir = cv_choose("ircv", 2);
    MODEL1D *mod = st->mod1d;
    mod->ircv = ir; mod->isrc = up ? 1 : 0; mod->ircvup = up;
    in_RT("FA", &st->M_FA); in_RT("BL", &st->M_BL);
    grt_static_wave2qwv_REV_PSV(st); grt_static_wave2qwv_REV_SH(st);
    grt_static_wave2qwv_z_REV_PSV(st); grt_static_wave2qwv_z_REV_SH(st);
    real_t z = cv_real("z", -0.5, 0.5);
    cplx_t F[4][4], T[2][2], F0[4][4], k = st->k; sspec_F(st, ir, z, F); sspec_T(st, ir, z, T); sspec_F(st, ir, 0, F0);
    int o = up ? 0 : 2, p = up ? 2 : 0;
    cplx_t (*R)[2] = up ? st->M_FA.RU : st->M_BL.RD, RL = up ? st->M_FA.RUL : st->M_BL.RDL;
    for (int c = 0; c < 2; c++) for (int r = 0; r < 2; r++)
        cv_eq("displacement at receiver", st->R_EV[r][c], F0[r][o+c] + F0[r][p]*R[0][c] + F0[r][p+1]*R[1][c]);
    cplx_t mu = st->mu[ir], lam = st->lambda[ir];
    for (int c = 0; c < 2; c++) {   /* through the tractions of the same field: sV = mu (qz + k w), sR = (lam+2mu) wz - lam k q */
        cplx_t sR = F0[2][o+c] + F0[2][p]*R[0][c] + F0[2][p+1]*R[1][c], sV = F0[3][o+c] + F0[3][p]*R[0][c] + F0[3][p+1]*R[1][c];
        cv_eq("z-derivative consistent with shear traction", mu*(st->uiz_R_EV[0][c] + k*st->R_EV[1][c]), sV);
        cv_eq("z-derivative consistent with normal traction", (lam + 2*mu)*st->uiz_R_EV[1][c] - lam*k*st->R_EV[0][c], sR);
    }
    cv_eq("SH displacement at receiver", st->R_EVL, 1 + RL);
    cv_eq("SH z-derivative at receiver", st->uiz_R_EVL, (up ? 1 : -1)*k*(1 - RL));
}
