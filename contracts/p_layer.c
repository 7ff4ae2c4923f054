/* P02: interface / boundary reflection-transmission coefficients of the dynamic problem */
#include "medium.h"

/* lemma: the specification wave fields solve the P-SV equations of motion (time harmonic, e^{+-k x z}) */
void H_spec_fields(void)
{
    cplx_t C; MODEL1D_STATE *st = med_new(1, &C); int liq = cv_choose("liquid", 2); med_layer(st, 0, liq);
    cplx_t D[4][4]; spec_D(st, 0, D);
    cplx_t k = st->k, om2 = k*k*C*C; real_t rho = st->mod1d->Rho[0];
    for (int j = 0; j < 4; j++) {
        if (liq && (j == 1 || j == 3)) continue;
        cplx_t x = (j % 2 == 0) ? st->xa[0] : st->xb[0];
        cplx_t g = (j < 2 ? k*x : -k*x);   /* d/dz */
        cplx_t mu = st->mu[0], lam = st->lambda[0];
        /* horizontal: d sigma_V/dz - k*(...) : sigma_h = -(lam+2mu) k q + lam dw/dz */
        cplx_t sh = -(lam + 2*mu)*k*D[0][j] + lam*g*D[1][j];
        cv_eq("motion: horizontal", g*D[3][j] + k*sh, -rho*om2*D[0][j]);
        cv_eq("motion: vertical", g*D[2][j] - k*D[3][j], -rho*om2*D[1][j]);
    }
}

/* continuity across an interface between two layers of any kind */
void H_interface_PSV(void)
{
    cplx_t C; MODEL1D_STATE *st = med_new(2, &C);
    int l1 = cv_choose("liquid1", 2), l2 = cv_choose("liquid2", 2);
    med_layer(st, 0, l1); med_layer(st, 1, l2);
    RT_MATRIX M; in_RT("M", &M);
    grt_RT_matrix_PSV(st, 1, &M);
    cplx_t D1[4][4], D2[4][4]; spec_D(st, 0, D1); spec_D(st, 1, D2);
    if (M.stats != GRT_INVERSE_SUCCESS) {   /* failure is reported only when the continuity equations are singular */
        cplx_t A[16]; int n = 0, rows = 0;
        for (int r = (l1 || l2) ? 1 : 0; r < ((l1 && l2) ? 3 : 4); r++) {
            A[n++] = D1[r][0]; if (!l1) A[n++] = D1[r][1];
            A[n++] = -D2[r][2]; if (!l2) A[n++] = -D2[r][3];
            rows++;
        }
        cv_true("failure code", M.stats == GRT_INVERSE_FAILURE);
        cv_eq("failure only if the interface problem is singular", s_detn(rows, A), 0);
        return;
    }
    for (int c = 0; c < 4; c++) {
        /* incident wave c: 0,1 = down-going P,SV in the upper layer; 2,3 = up-going P,SV in the lower layer */
        if (l1 && c == 1) { cv_eq("no S in liquid", M.RD[0][1], 0); cv_eq("no S in liquid", M.RD[1][1], 0); cv_eq("no S in liquid", M.TD[0][1], 0); cv_eq("no S in liquid", M.TD[1][1], 0); continue; }
        if (l2 && c == 3) { cv_eq("no S in liquid", M.RU[0][1], 0); cv_eq("no S in liquid", M.RU[1][1], 0); cv_eq("no S in liquid", M.TU[0][1], 0); cv_eq("no S in liquid", M.TU[1][1], 0); continue; }
        cplx_t up1[2], dn1[2], up2[2], dn2[2];
        for (int i = 0; i < 2; i++) {
            if (c < 2) { dn1[i] = i == c; up2[i] = 0; up1[i] = M.RD[i][c]; dn2[i] = M.TD[i][c]; }
            else { dn1[i] = 0; up2[i] = i == c-2; up1[i] = M.TU[i][c-2]; dn2[i] = M.RU[i][c-2]; }
        }
        if (l1) { cv_eq("no S in liquid", up1[1], 0); }
        if (l2) { cv_eq("no S in liquid", dn2[1], 0); }
        for (int r = 0; r < 4; r++) {
            cplx_t a = D1[r][0]*up1[0] + D1[r][1]*up1[1] + D1[r][2]*dn1[0] + D1[r][3]*dn1[1];
            cplx_t b = D2[r][0]*up2[0] + D2[r][1]*up2[1] + D2[r][2]*dn2[0] + D2[r][3]*dn2[1];
            if (r == 0 && (l1 || l2)) continue;          /* slip allowed along a liquid */
            cv_eq(r == 0 ? "horizontal displacement continuous" : r == 1 ? "vertical displacement continuous" :
                  r == 2 ? "normal traction continuous" : "shear traction continuous", a, b);
        }
    }
}
void H_interface_SH(void)
{
    cplx_t C; MODEL1D_STATE *st = med_new(2, &C);
    int l1 = cv_choose("liquid1", 2), l2 = cv_choose("liquid2", 2);
    med_layer(st, 0, l1); med_layer(st, 1, l2);
    RT_MATRIX M; in_RT("M", &M);
    grt_RT_matrix_SH(st, 1, &M);
    cplx_t T1[2][2], T2[2][2]; spec_T(st, 0, T1); spec_T(st, 1, T2);
    if (l1) { cv_eq("no SH in liquid", M.RDL, 0); cv_eq("no SH into liquid", M.TUL, 0); cv_eq("no SH from liquid", M.TDL, 0); }
    if (l2) { cv_eq("no SH in liquid", M.RUL, 0); cv_eq("no SH into liquid", M.TDL, 0); cv_eq("no SH from liquid", M.TUL, 0); }
    if (!l1 && !l2) {
        for (int r = 0; r < 2; r++) {
            cv_eq(r ? "SH traction continuous (down)" : "SH displacement continuous (down)", T1[r][0]*M.RDL + T1[r][1], T2[r][1]*M.TDL);
            cv_eq(r ? "SH traction continuous (up)" : "SH displacement continuous (up)", T1[r][0]*M.TUL, T2[r][0] + T2[r][1]*M.RUL);
        }
    } else if (!l1) cv_eq("SH traction-free at liquid (down)", T1[1][0]*M.RDL + T1[1][1], 0);
    else if (!l2) cv_eq("SH traction-free at liquid (up)", T2[1][0] + T2[1][1]*M.RUL, 0);
}
/* the liquid-solid coefficients used by the mode solver agree with the interface coefficients, and In/Out relation */
void H_interface_ls33(void)
{
    cplx_t C; MODEL1D_STATE *st = med_new(2, &C);
    int l1 = cv_choose("liquid_on_top", 2);
    med_layer(st, 0, l1); med_layer(st, 1, !l1);
    RT_MATRIX M; in_RT("M", &M);
    grt_RT_matrix_PSV(st, 1, &M);
    if (M.stats != GRT_INVERSE_SUCCESS) return;
    cplx_t R[3][3], Qi[3][3], Qo[3][3];
    grt_RT_mat3x3_ls_PSV(st, 1, R);
    grt_Q_mat3x3_ls_PSV(st, 1, Qi, Qo);
    cplx_t (*RL)[2] = l1 ? M.RD : M.RU, (*RS)[2] = l1 ? M.RU : M.RD, (*TL)[2] = l1 ? M.TD : M.TU, (*TS)[2] = l1 ? M.TU : M.TD;
    cv_eq("3x3 liquid reflection", R[0][0], RL[0][0]);
    for (int i = 0; i < 2; i++) {
        cv_eq("3x3 liquid to solid", R[1+i][0], TL[i][0]);
        cv_eq("3x3 solid to liquid", R[0][1+i], TS[0][i]);
        for (int j = 0; j < 2; j++) cv_eq("3x3 solid reflection", R[1+i][1+j], RS[i][j]);
    }
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
        cplx_t s = 0;
        for (int m = 0; m < 3; m++) s += Qo[i][m]*R[m][j];
        cv_eq("outgoing = R * incoming", s, Qi[i][j]);
    }
}

/* top boundary */
void H_topbound(void)
{
    cplx_t C; MODEL1D_STATE *st = med_new(2, &C);
    int l = cv_choose("liquid", 2), b = cv_choose("bound", 3);
    med_layer(st, 0, l); med_layer(st, 1, 0);
    MODEL1D *mod = st->mod1d;
    mod->topbound = b == 0 ? GRT_BOUND_FREE : b == 1 ? GRT_BOUND_RIGID : GRT_BOUND_HALFSPACE;
    mod->botbound = GRT_BOUND_HALFSPACE;
    in_RT("top", &st->M_top);
    grt_topbound_RU_PSV(st);
    cplx_t D[4][4], T[2][2]; spec_D(st, 0, D); spec_T(st, 0, T);
    int ok = st->M_top.stats == GRT_INVERSE_SUCCESS;
    if (!ok) { int o = b == 0 ? 2 : 0; cv_true("surface reflection fails only for solid free/rigid surfaces", !l && b != 2);
        cv_eq("surface reflection fails only if singular", D[o][2]*D[o+1][3] - D[o][3]*D[o+1][2], 0); }
    if (ok) {
        cplx_t (*R)[2] = st->M_top.RU;
        for (int c = 0; c < (l ? 1 : 2); c++) {
            for (int r = 0; r < 4; r++) {
                cplx_t v = D[r][c] + D[r][2]*R[0][c] + D[r][3]*R[1][c];
                if (b == 0 && r == 2) cv_eq("free surface: normal traction vanishes", v, 0);
                if (b == 0 && r == 3) cv_eq("free surface: shear traction vanishes", v, 0);
                if (b == 1 && r == 0 && !l) cv_eq("rigid surface: horizontal displacement vanishes", v, 0);
                if (b == 1 && r == 1) cv_eq("rigid surface: vertical displacement vanishes", v, 0);
            }
            if (b == 2) { cv_eq("open surface reflects nothing", R[0][c], 0); cv_eq("open surface reflects nothing", R[1][c], 0); }
        }
        if (l) { cv_eq("no S at liquid surface", R[1][0], 0); cv_eq("no S at liquid surface", R[0][1], 0); cv_eq("no S at liquid surface", R[1][1], 0); }
    }
    grt_topbound_RU_SH(st);
    cplx_t r = st->M_top.RUL;
    if (l || b == 2) cv_eq("no SH reflection", r, 0);
    else if (b == 0) cv_eq("free surface: SH traction vanishes", T[1][0] + T[1][1]*r, 0);
    else cv_eq("rigid surface: SH displacement vanishes", T[0][0] + T[0][1]*r, 0);
}
/* bottom boundary: condition holds at the bottom of the last finite layer, coefficient referred to its top */
void H_botbound(void)
{
    cplx_t C; MODEL1D_STATE *st = med_new(3, &C);
    int l = cv_choose("liquid", 2), lb = cv_choose("liquid_halfspace", 2), b = cv_choose("bound", 3);
    med_layer(st, 0, 0); med_layer(st, 1, l); med_layer(st, 2, lb);
    MODEL1D *mod = st->mod1d;
    mod->topbound = GRT_BOUND_FREE;
    mod->botbound = b == 0 ? GRT_BOUND_FREE : b == 1 ? GRT_BOUND_RIGID : GRT_BOUND_HALFSPACE;
    in_RT("bot", &st->M_bot);
    grt_botbound_RD_PSV(st);
    cplx_t D[4][4], D2[4][4], T[2][2]; spec_D(st, 1, D); spec_D(st, 2, D2); spec_T(st, 1, T);
    cplx_t ea = exp(-st->k*mod->Thk[1]*st->xa[1]), eb = exp(-st->k*mod->Thk[1]*st->xb[1]);
    if (st->M_bot.stats != GRT_INVERSE_SUCCESS && b < 2) { int o = b == 0 ? 2 : 0; cv_true("bottom reflection fails only for solid free/rigid bottoms", !l);
        cv_eq("bottom reflection fails only if singular", D[o][0]*D[o+1][1] - D[o][1]*D[o+1][0], 0); }
    if (st->M_bot.stats == GRT_INVERSE_SUCCESS) {
        cplx_t (*R)[2] = st->M_bot.RD;
        for (int c = 0; c < (l ? 1 : 2); c++) {
            /* unit down-going wave at the layer top; at the bottom it is e; reflected R at the top corresponds to R/e at the bottom */
            cplx_t inc = c ? eb : ea;
            for (int r = 0; r < 4; r++) {
                cplx_t v = D[r][2+c]*inc + D[r][0]*R[0][c]/ea + D[r][1]*R[1][c]/eb;
                if (b == 0 && r == 2) cv_eq("free bottom: normal traction vanishes", v, 0);
                if (b == 0 && r == 3) cv_eq("free bottom: shear traction vanishes", v, 0);
                if (b == 1 && r == 0 && !l) cv_eq("rigid bottom: horizontal displacement vanishes", v, 0);
                if (b == 1 && r == 1) cv_eq("rigid bottom: vertical displacement vanishes", v, 0);
            }
        }
        if (b == 2) {   /* half-space below: some purely down-going field of the half-space matches */
            RT_MATRIX M; in_RT("M", &M); grt_RT_matrix_PSV(st, 2, &M);
            cplx_t e[2] = {ea, eb};
            for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) cv_eq("half-space reflection referred to layer top", R[i][j], e[i]*M.RD[i][j]*e[j]);
        }
        if (l) { cv_eq("no S in liquid", R[1][0], 0); cv_eq("no S in liquid", R[0][1], 0); cv_eq("no S in liquid", R[1][1], 0); }
    }
    grt_botbound_RD_SH(st);
    cplx_t r = st->M_bot.RDL;
    if (l) cv_eq("no SH reflection", r, 0);
    else if (b == 0) cv_eq("free bottom: SH traction vanishes", T[1][1]*eb + T[1][0]*r/eb, 0);
    else if (b == 1) cv_eq("rigid bottom: SH displacement vanishes", T[0][1]*eb + T[0][0]*r/eb, 0);
    else { RT_MATRIX M; in_RT("M", &M); grt_RT_matrix_SH(st, 2, &M); cv_eq("half-space SH reflection referred to layer top", r, eb*M.RDL*eb); }
}

/* phase delays: moving the reference level through the layer above (interface) / through the layer below the stack */
void H_delay(void)
{
    cplx_t C; MODEL1D_STATE *st = med_new(2, &C);
    int l = cv_choose("liquid", 2), w = cv_choose("which", 4);
    med_layer(st, 0, l); med_layer(st, 1, 0);
    RT_MATRIX M, N; in_RT("M", &M); N = M;
    cplx_t e[2] = {exp(-st->k*st->mod1d->Thk[0]*st->xa[0]), exp(-st->k*st->mod1d->Thk[0]*st->xb[0])};
    if (w == 0) grt_delay_RT_matrix(st, 1, &M);
    if (w == 1) grt_delay_RT_matrix_PSV(st, 1, &M);
    if (w == 2) grt_delay_RT_matrix_SH(st, 1, &M);
    if (w == 3) grt_delay_GRT_matrix(st, 1, &M);
    int psv = w != 2, sh = w != 1;
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) {
        cplx_t ei = psv ? e[i] : 1, ej = psv ? e[j] : 1;
        if (w < 3) {
            cv_eq("RD two-way delay", M.RD[i][j], ei*N.RD[i][j]*ej);
            cv_eq("TD one-way delay", M.TD[i][j], N.TD[i][j]*ej);
            cv_eq("TU one-way delay", M.TU[i][j], ei*N.TU[i][j]);
            cv_eq("RU unchanged", M.RU[i][j], N.RU[i][j]);
        } else {
            cv_eq("RU two-way delay", M.RU[i][j], ei*N.RU[i][j]*ej);
            cv_eq("TD one-way delay", M.TD[i][j], ei*N.TD[i][j]);
            cv_eq("TU one-way delay", M.TU[i][j], N.TU[i][j]*ej);
            cv_eq("RD unchanged", M.RD[i][j], N.RD[i][j]);
        }
    }
    cplx_t b = sh ? e[1] : 1;
    cv_eq("SH TD", M.TDL, N.TDL*b); cv_eq("SH TU", M.TUL, N.TUL*b);
    cv_eq("SH RD", M.RDL, w < 3 ? N.RDL*b*b : N.RDL);
    cv_eq("SH RU", M.RUL, w < 3 ? N.RUL : N.RUL*b*b);
}

/* state-vector matrices and their inverses */
void H_layer_D(void)
{
    cplx_t C; MODEL1D_STATE *st = med_new(1, &C); int liq = cv_choose("liquid", 2), ty = 1 + cv_choose("invtype", 2);
    med_layer(st, 0, liq);
    cplx_t D[4][4], S[4][4], V[4][4], A[2][2]; spec_D(st, 0, S);
    grt_get_layer_D(st, 0, false, ty, D);
    grt_get_layer_D(st, 0, true, ty, V);
    for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) {
        if (!(liq && ty == 2 && i == 0)) cv_eq("D maps waves to displacement-stress", D[i][j], S[i][j]);
        cplx_t s = 0; for (int m = 0; m < 4; m++) s += V[i][m]*D[m][j];
        int zero = liq && (i % 2 == 1 || j % 2 == 1);
        cv_eq("inverse D", s, (i == j && !zero) ? 1 : 0);
    }
    for (int q = 0; q < 6; q++) {
        if (q == 0) grt_get_layer_D11(st, 0, A);
        if (q == 1) grt_get_layer_D12(st, 0, A);
        if (q == 2) grt_get_layer_D21(st, 0, A);
        if (q == 3) grt_get_layer_D22(st, 0, A);
        if (q == 4) grt_get_layer_D11_uiz(st, 0, A);
        if (q == 5) grt_get_layer_D12_uiz(st, 0, A);
        int r0 = (q == 2 || q == 3) ? 2 : 0, c0 = q % 2 ? 2 : 0;
        for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) {
            cplx_t g = 1;
            if (q >= 4) { g = st->k*(j ? st->xb[0] : st->xa[0]); if (q == 5) g = -g; }
            cv_eq("sub-block of D", A[i][j], S[r0+i][c0+j]*g);
        }
    }
    if (!liq) {
        cplx_t T[2][2], Ti[2][2], U[2][2]; spec_T(st, 0, U);
        grt_get_layer_T(st, 0, false, T); grt_get_layer_T(st, 0, true, Ti);
        for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) {
            cv_eq("T maps SH waves to displacement-stress", T[i][j], U[i][j]);
            cv_eq("inverse T", Ti[i][0]*T[0][j] + Ti[i][1]*T[1][j], i == j);
        }
    }
}
/* receiver conversion: displacement (and its z-derivative) of the total field at the receiver level */
void H_receiver(void)
{
    cplx_t C; MODEL1D_STATE *st = med_new(2, &C); int liq = cv_choose("liquid", 2), up = cv_choose("receiver_above_source", 2), ir = cv_choose("ircv", 2);
    med_layer(st, 0, ir == 0 ? liq : 0); med_layer(st, 1, ir == 1 ? liq : 0);
    MODEL1D *mod = st->mod1d;
    mod->ircv = ir; mod->isrc = up ? 1 : 0; mod->ircvup = up;
    in_RT("FA", &st->M_FA); in_RT("BL", &st->M_BL);
    grt_wave2qwv_REV_PSV(st); grt_wave2qwv_REV_SH(st);
    grt_wave2qwv_z_REV_PSV(st); grt_wave2qwv_z_REV_SH(st);
    cplx_t D[4][4]; spec_D(st, ir, D);
    cplx_t k = st->k, x[2] = {st->xa[ir], st->xb[ir]};
    for (int c = 0; c < 2; c++) for (int r = 0; r < 2; r++) {
        cplx_t u, uz;
        cplx_t (*R)[2] = up ? st->M_FA.RU : st->M_BL.RD;
        int o = up ? 0 : 2, p = up ? 2 : 0; real_t sg = up ? 1 : -1;
        u = D[r][o+c] + D[r][p]*R[0][c] + D[r][p+1]*R[1][c];
        uz = sg*(D[r][o+c]*k*x[c] - D[r][p]*k*x[0]*R[0][c] - D[r][p+1]*k*x[1]*R[1][c]);
        cv_eq("displacement at receiver", st->R_EV[r][c], u);
        cv_eq("z-derivative at receiver", st->uiz_R_EV[r][c], uz);
    }
    if (liq) { cv_eq("no SH in liquid", st->R_EVL, 0); cv_eq("no SH in liquid", st->uiz_R_EVL, 0); }
    else {
        cplx_t R = up ? st->M_FA.RUL : st->M_BL.RDL; real_t sg = up ? 1 : -1;
        cv_eq("SH displacement at receiver", st->R_EVL, k*(1 + R));
        cv_eq("SH z-derivative at receiver", st->uiz_R_EVL, sg*k*k*x[1]*(1 - R));
    }
}
