From 27e97d9720833cd59fca59ddd143f8b21c7d79a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:32 +0000
Subject: [PATCH 01/14] fix: DCM with Filon subtracts and adds back the same
 asymptote

With FIM/SAFIM the discrete part ends at kcut < kmax, but QWV_kmax is the kernel at kmax. The discrete part and the
analytic correction scaled it with kcut while the Filon part used kmax, so what was added back differed from what had
been subtracted (single forces, and z derivatives of all sources).
---
 pygrt/C_extension/src/integral/dwm.c           | 2 +-
 pygrt/C_extension/src/integral/integ_process.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/src/integral/dwm.c b/pygrt/C_extension/src/integral/dwm.c
index a5e2a21..5cacb3b 100644
--- a/pygrt/C_extension/src/integral/dwm.c
+++ b/pygrt/C_extension/src/integral/dwm.c
@@ -59,7 +59,7 @@ real_t grt_discrete_integ(
         }
 
         if(K->applyDCM){
-            grt_int_dcm_revision(kmax, k, K->QWV, K->QWV_kmax, K->calc_upar, K->QWVz, K->QWVz_kmax);
+            grt_int_dcm_revision(K->kmax, k, K->QWV, K->QWV_kmax, K->calc_upar, K->QWVz, K->QWVz_kmax);
         }
 
         // 记录积分核函数
diff --git a/pygrt/C_extension/src/integral/integ_process.c b/pygrt/C_extension/src/integral/integ_process.c
index 9945af0..cc2fc97 100644
--- a/pygrt/C_extension/src/integral/integ_process.c
+++ b/pygrt/C_extension/src/integral/integ_process.c
@@ -130,7 +130,7 @@ K_INTEG * grt_wavenumber_integral(
         if(mstat->stats==GRT_INVERSE_FAILURE)  goto BEFORE_RETURN;
     }
     else if(Kproc->cvgmet == K_INTEG_CONVERG_DCM){
-        grt_dcm_correction(nr, rs, Kproc->dk, kcut, Kint, !isFilon);
+        grt_dcm_correction(nr, rs, Kproc->dk, Kint->kmax, Kint, !isFilon);
     }
 
 
-- 
2.43.0


From e34cfe1bfac36ee156e6d99684080a23421322c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:32 +0000
Subject: [PATCH 02/14] fix: sign of the sine terms at both ends of the Filon
 integral

cos(x + pi/2) = -sin(x): the end-point corrections of the linear Filon rule had the wrong sign, so the result was not
the integral of the piecewise-linear interpolant.
---
 pygrt/C_extension/src/integral/k_integ.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/integral/k_integ.c b/pygrt/C_extension/src/integral/k_integ.c
index 5e840b0..f21ada5 100644
--- a/pygrt/C_extension/src/integral/k_integ.c
+++ b/pygrt/C_extension/src/integral/k_integ.c
@@ -153,7 +153,7 @@ void grt_int_Pk(real_t k, real_t r, const cplxChnlGrid QWV, bool calc_uir, cplxI
 void grt_int_Pk_filon(real_t k, real_t r, bool iscos, const cplxChnlGrid QWV, bool calc_uir, cplxIntegGrid SUM)
 {
     real_t phi0 = 0.0;
-    if(! iscos)  phi0 = - HALFPI;  // 在cos函数中添加的相位差，用于计算sin函数
+    if(! iscos)  phi0 = HALFPI;  // 在cos函数中添加的相位差，用于计算sin函数: sin(x) = cos(x - pi/2)
 
     real_t kr = k*r;
     real_t kcoef = sqrt(k);
-- 
2.43.0


From 903df1c1c9b55ed2e4657ae415c36ac0d5e1b234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:42 +0000
Subject: [PATCH 03/14] fix: DS kernel is only zero on a free surface, not on
 rigid or open top boundaries

---
 pygrt/C_extension/src/integral/kernel_template.c_ | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/src/integral/kernel_template.c_ b/pygrt/C_extension/src/integral/kernel_template.c_
index 24d5436..4b80b1e 100644
--- a/pygrt/C_extension/src/integral/kernel_template.c_
+++ b/pygrt/C_extension/src/integral/kernel_template.c_
@@ -277,8 +277,8 @@ void __BUILD_QWV__(MODEL1D_STATE *mstat, cplxChnlGrid QWV, bool calc_uiz, cplxCh
     BEFORE_RETURN:
 
     // 对一些特殊情况的修正
-    // 当震源和场点均位于地表时，可理论验证DS分量恒为0，这里直接赋0以避免后续的精度干扰
-    if(mod1d->depsrc == 0.0 && mod1d->deprcv == 0.0)
+    // 当震源和场点均位于自由地表时，可理论验证DS分量恒为0，这里直接赋0以避免后续的精度干扰
+    if(mod1d->topbound == GRT_BOUND_FREE && mod1d->depsrc == 0.0 && mod1d->deprcv == 0.0)
     {
         for(int c=0; c<GRT_CHANNEL_NUM; ++c){
             QWV[GRT_SRC_M_DS_INDEX][c] = 0.0;
-- 
2.43.0


From 07ee415c57565945d2e1fa73b59e183d659d3ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:01 +0000
Subject: [PATCH 04/14] fix: attenuated Lame constant lambda uses the P-wave
 attenuation factor

---
 pygrt/C_extension/src/common/model.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/common/model.c b/pygrt/C_extension/src/common/model.c
index 577838f..c800a13 100755
--- a/pygrt/C_extension/src/common/model.c
+++ b/pygrt/C_extension/src/common/model.c
@@ -411,7 +411,7 @@ void grt_update_mod1d_state_omega(MODEL1D_STATE *mstat, const cplx_t omega, cons
         mstat->atnb[i] = atnb;
         
         mstat->mu[i] = (Vb0*atnb)*(Vb0*atnb)*(mod1d->Rho[i]);
-        mstat->lambda[i] = (Va0*atnb)*(Va0*atnb)*(mod1d->Rho[i]) - 2*mstat->mu[i];
+        mstat->lambda[i] = (Va0*atna)*(Va0*atna)*(mod1d->Rho[i]) - 2*mstat->mu[i];
         mstat->delta[i] = (mstat->lambda[i] + mstat->mu[i]) / (mstat->lambda[i] + 3.0*mstat->mu[i]);
     }
 }
-- 
2.43.0


From ef640ff9f7d173f51bf1f7258438cb5d3862254e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:16 +0000
Subject: [PATCH 05/14] fix: source and receiver at the same depth inside a
 liquid layer are not on an interface

---
 pygrt/C_extension/src/common/model.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/src/common/model.c b/pygrt/C_extension/src/common/model.c
index c800a13..78f5562 100755
--- a/pygrt/C_extension/src/common/model.c
+++ b/pygrt/C_extension/src/common/model.c
@@ -299,7 +299,8 @@ MODEL1D * grt_read_mod1d_from_file(const char *modelpath, real_t depsrc, real_t
     }
 
     // 检查，接收点不能位于液-液、固-液界面
-    if(ircv < nlay-1 && mod1d->Thk[ircv] == 0.0 && mod1d->Vb[ircv]*mod1d->Vb[ircv+1] == 0.0){
+    // （收发同深时浅侧虚拟层厚度恒为 0，此时由深侧虚拟层判断是否位于界面）
+    if(ircv < nlay-1 && ircv+1 != isrc && mod1d->Thk[ircv] == 0.0 && mod1d->Vb[ircv]*mod1d->Vb[ircv+1] == 0.0){
         GRTRaiseError( 
             "The receiver is located on the interface where there is liquid on one side. "
             "Due to the discontinuity of the tangential displacement on this interface, "
@@ -308,7 +309,7 @@ MODEL1D * grt_read_mod1d_from_file(const char *modelpath, real_t depsrc, real_t
     }
 
     // 检查 --> 源点不能位于液-液、固-液界面
-    if(isrc < nlay-1 && mod1d->Thk[isrc] == 0.0 && mod1d->Vb[isrc]*mod1d->Vb[isrc+1] == 0.0){
+    if(isrc < nlay-1 && isrc+1 != ircv && mod1d->Thk[isrc] == 0.0 && mod1d->Vb[isrc]*mod1d->Vb[isrc+1] == 0.0){
         GRTRaiseError(
             "The source is located on the interface where there is liquid on one side. "
             "Due to the discontinuity of the tangential displacement on this interface, "
-- 
2.43.0


From f7fa34e65a99c57574c4f26dc768368fff42b1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:48 +0000
Subject: [PATCH 06/14] fix: circular convolution with a time function longer
 than the record

---
 pygrt/C_extension/src/dynamic/grt_syn.c | 10 ++++++----
 pygrt/C_extension/src/dynamic/signals.c |  3 ++-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/pygrt/C_extension/src/dynamic/grt_syn.c b/pygrt/C_extension/src/dynamic/grt_syn.c
index c81057a..40190bc 100644
--- a/pygrt/C_extension/src/dynamic/grt_syn.c
+++ b/pygrt/C_extension/src/dynamic/grt_syn.c
@@ -929,8 +929,10 @@ static void syn_postprocess_trace(SACTRACE *sac, SACTRACE *tfsac, int int_times,
         float wI = sac->hd.user0;
         float fac = 1.0f;
         float dfac = expf(-wI * dt);
-        for(int n = 0; n < nt; ++n){
-            sac->data[n] *= fac;
+        // 时间函数可能长于记录
+        int nall = (nt > tfsac->hd.npts)? nt : tfsac->hd.npts;
+        for(int n = 0; n < nall; ++n){
+            if(n < nt) sac->data[n] *= fac;
             if(n < tfsac->hd.npts) tfsac->data[n] *= fac;
             fac *= dfac;
         }
@@ -939,8 +941,8 @@ static void syn_postprocess_trace(SACTRACE *sac, SACTRACE *tfsac, int int_times,
         grt_oaconvolve(sac->data, nt, tfsac->data, tfsac->hd.npts, convarr, nt, true);
         fac = 1.0f;
         dfac = expf(wI * dt);
-        for(int n = 0; n < nt; ++n){
-            sac->data[n] = convarr[n] * fac * dt;
+        for(int n = 0; n < nall; ++n){
+            if(n < nt) sac->data[n] = convarr[n] * fac * dt;
             if(n < tfsac->hd.npts) tfsac->data[n] *= fac;
             fac *= dfac;
         }
diff --git a/pygrt/C_extension/src/dynamic/signals.c b/pygrt/C_extension/src/dynamic/signals.c
index 849b3b0..cddd72e 100644
--- a/pygrt/C_extension/src/dynamic/signals.c
+++ b/pygrt/C_extension/src/dynamic/signals.c
@@ -137,7 +137,8 @@ void grt_oaconvolve(float *x, int nx, float *h, int nh, float *y, int ny, bool i
         for(int n=0; n<ny; ++n) {
             y[n] = 0.0;
             for(int k=0; k<nh; ++k) {
-                y[n] += x[(n - k + nx)%nx] * h[k];
+                // h 可能长于 x，取模结果需保证非负
+                y[n] += x[((n - k)%nx + nx)%nx] * h[k];
             }
         }
     } else {
-- 
2.43.0


From 5a7847f3e8657a122aa67ff2799b2e8fd4277e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:48 +0000
Subject: [PATCH 07/14] fix: trapezoidal area multiplies by the sampling
 interval

---
 pygrt/C_extension/src/dynamic/signals.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/dynamic/signals.c b/pygrt/C_extension/src/dynamic/signals.c
index cddd72e..9947689 100644
--- a/pygrt/C_extension/src/dynamic/signals.c
+++ b/pygrt/C_extension/src/dynamic/signals.c
@@ -157,7 +157,7 @@ void grt_oaconvolve(float *x, int nx, float *h, int nh, float *y, int ny, bool i
 float grt_trap_area(const float *x, int nx, float dt){
     float area = 0.0;
     for(int i=0; i<nx-1; ++i){
-        area += (x[i] + x[i+1])*0.5/dt;
+        area += (x[i] + x[i+1])*0.5*dt;
     }
     return area;
 }
-- 
2.43.0


From 7b773f7b82e7365a9cf587171771fc4d5b1d7fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:12 +0000
Subject: [PATCH 08/14] fix: syn selects library entries whose single-precision
 depth or distance exceeds the tolerance

---
 pygrt/C_extension/src/dynamic/grt_syn.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pygrt/C_extension/src/dynamic/grt_syn.c b/pygrt/C_extension/src/dynamic/grt_syn.c
index 40190bc..a016988 100644
--- a/pygrt/C_extension/src/dynamic/grt_syn.c
+++ b/pygrt/C_extension/src/dynamic/grt_syn.c
@@ -7,6 +7,8 @@
  * 
  */
 
+#include <float.h>
+
 #include "grt.h"
 
 // 防止被替换为虚数单位
@@ -594,6 +596,13 @@ static void append_unique_real(real_t **values, size_t *nvalues, real_t value, c
 }
 
 
+/** SAC 头段变量为单精度，比较时需计入其舍入误差 */
+static bool sac_real_match(real_t sacval, real_t value, const real_t tolerance)
+{
+    return fabs(sacval - value) <= tolerance + FLT_EPSILON * fabs(value);
+}
+
+
 /** 根据根目录和库形态选取唯一的动态格林函数子目录 */
 static void resolve_syn_grn_path(GRT_MODULE_CTRL *Ctrl)
 {
@@ -703,9 +712,9 @@ static void resolve_syn_grn_path(GRT_MODULE_CTRL *Ctrl)
         }
 
         SACTRACE *sac = grt_read_SACTRACE(sample, true);
-        bool depth_match = fabs(sac->hd.evdp - Ctrl->Depth.depsrc) <= match_tolerance
-            && fabs((-sac->hd.stel * 1e-3) - Ctrl->Depth.deprcv) <= match_tolerance;
-        bool dist_match = fabs(sac->hd.dist - Ctrl->R.dist) <= match_tolerance;
+        bool depth_match = sac_real_match(sac->hd.evdp, Ctrl->Depth.depsrc, match_tolerance)
+            && sac_real_match(-sac->hd.stel * 1e-3, Ctrl->Depth.deprcv, match_tolerance);
+        bool dist_match = sac_real_match(sac->hd.dist, Ctrl->R.dist, match_tolerance);
         grt_free_SACTRACE(sac);
         GRT_SAFE_FREE_PTR(sample);
 
-- 
2.43.0


From 5fcfb346eb2736907f50fd19d49e14dfa7665c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:07 +0000
Subject: [PATCH 09/14] fix: equally spaced ranges a1/a2/delta lose their end
 point to rounding

---
 pygrt/C_extension/include/grt/common/util.h       | 11 +++++++++++
 pygrt/C_extension/src/common/util.c               |  7 ++++++-
 pygrt/C_extension/src/dynamic/grt_kernel.c        |  6 +++---
 pygrt/C_extension/src/lamb/grt_lamb1.c            |  2 +-
 pygrt/C_extension/src/modal/grt_eigenfn.c         |  6 +++---
 pygrt/C_extension/src/modal/grt_eigenv.c          |  2 +-
 pygrt/C_extension/src/modal/grt_modsum.c          |  2 +-
 pygrt/C_extension/src/okada/grt_okada.c           |  2 +-
 pygrt/C_extension/src/static/grt_static_greenfn.c |  4 ++--
 pygrt/C_extension/src/static/grt_static_syn.c     |  4 ++--
 pygrt/C_extension/src/tools/grt_disp2asc.c        |  4 ++--
 pygrt/C_extension/src/tools/grt_travt.c           |  2 +-
 12 files changed, 34 insertions(+), 18 deletions(-)

diff --git a/pygrt/C_extension/include/grt/common/util.h b/pygrt/C_extension/include/grt/common/util.h
index 7e9ad7c..7471177 100644
--- a/pygrt/C_extension/include/grt/common/util.h
+++ b/pygrt/C_extension/include/grt/common/util.h
@@ -37,6 +37,17 @@ char ** grt_string_split(const char *string, const char *delim, size_t *size);
  */
 char ** grt_string_from_file(FILE *fp, size_t *size);
 
+/**
+ * 等间距范围 a1/a2/delta 的点数，容许舍入误差，使恰为整数倍的终点包含在内
+ *
+ * @param[in]   a1      起点
+ * @param[in]   a2      终点 (>= a1)
+ * @param[in]   delta   正间距
+ *
+ * @return   点数
+ */
+size_t grt_range_count(real_t a1, real_t a2, real_t delta);
+
 /**
  * 从逗号列表、等间距范围或文本文件中读取非负且严格升序的数值数组
  *
diff --git a/pygrt/C_extension/src/common/util.c b/pygrt/C_extension/src/common/util.c
index b452898..f188b8c 100644
--- a/pygrt/C_extension/src/common/util.c
+++ b/pygrt/C_extension/src/common/util.c
@@ -62,6 +62,11 @@ char ** grt_string_from_file(FILE *fp, size_t *size){
     return s_split;
 }
 
+size_t grt_range_count(real_t a1, real_t a2, real_t delta)
+{
+    return (size_t)floor((a2 - a1) / delta + 1e-6) + 1;
+}
+
 real_t *grt_parse_real_array(const char *optarg, size_t *size, char ***s_values, char optname)
 {
     real_t a1, a2, delta;
@@ -80,7 +85,7 @@ real_t *grt_parse_real_array(const char *optarg, size_t *size, char ***s_values,
         if(a1 > a2){
             GRTRaiseError("-%c: start (%f) > end (%f).", optname, a1, a2);
         }
-        n = (size_t)floor((a2 - a1) / delta) + 1;
+        n = grt_range_count(a1, a2, delta);
         s_vals = (char **)calloc(n, sizeof(char *));
         for(size_t i = 0; i < n; ++i){
             GRT_SAFE_ASPRINTF(&s_vals[i], "%.15g", a1 + delta * i);
diff --git a/pygrt/C_extension/src/dynamic/grt_kernel.c b/pygrt/C_extension/src/dynamic/grt_kernel.c
index 0474c1e..250205a 100644
--- a/pygrt/C_extension/src/dynamic/grt_kernel.c
+++ b/pygrt/C_extension/src/dynamic/grt_kernel.c
@@ -266,7 +266,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv)
                         }
                     }
 
-                    Ctrl->F.nf = floor((a2-a1)/df) + 1;
+                    Ctrl->F.nf = grt_range_count(a1, a2, df);
                     // 至少要有两个频率点，才能在程序中用差分计算 df
                     if(Ctrl->F.nf < 2){
                         GRTBadOptionError(F, "Too few frequency points, only %zu.", Ctrl->F.nf);
@@ -315,7 +315,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv)
                             GRTBadOptionError(C, "cmin(%lf) >= cmax(%lf).", Ctrl->C.cmin, Ctrl->C.cmax);
                         }
 
-                        Ctrl->C.nc = floor((a2-a1)/df) + 1;
+                        Ctrl->C.nc = grt_range_count(a1, a2, df);
                         Ctrl->C.c_phases = (real_t *)calloc(Ctrl->C.nc, sizeof(real_t));
                         for(size_t i=0; i<Ctrl->C.nc; ++i){
                             Ctrl->C.c_phases[i] = a1 + df*i;
@@ -395,7 +395,7 @@ int kernel_main(int argc, char **argv)
     {
         Ctrl->C.cmin = 0.8 * vmin;
         Ctrl->C.cmax = vmax;
-        Ctrl->C.nc = floor((Ctrl->C.cmax - Ctrl->C.cmin)/Ctrl->C.dc) + 1;
+        Ctrl->C.nc = grt_range_count(Ctrl->C.cmin, Ctrl->C.cmax, Ctrl->C.dc);
         Ctrl->C.c_phases = (real_t *)calloc(Ctrl->C.nc, sizeof(real_t));
         for(size_t i=0; i<Ctrl->C.nc; ++i){
             Ctrl->C.c_phases[i] = Ctrl->C.cmin + Ctrl->C.dc*i;
diff --git a/pygrt/C_extension/src/lamb/grt_lamb1.c b/pygrt/C_extension/src/lamb/grt_lamb1.c
index c013de2..223a93c 100644
--- a/pygrt/C_extension/src/lamb/grt_lamb1.c
+++ b/pygrt/C_extension/src/lamb/grt_lamb1.c
@@ -111,7 +111,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         GRTBadOptionError(T, "t1(%f) > t2(%f).", a1, a2);
                     }
 
-                    Ctrl->T.nt = floor((a2-a1)/delta) + 1;
+                    Ctrl->T.nt = grt_range_count(a1, a2, delta);
                     Ctrl->T.ts = (real_t*)calloc(Ctrl->T.nt, sizeof(real_t));
                     for(int i=0; i<Ctrl->T.nt; ++i){
                         Ctrl->T.ts[i] = a1 + delta*i;
diff --git a/pygrt/C_extension/src/modal/grt_eigenfn.c b/pygrt/C_extension/src/modal/grt_eigenfn.c
index 1ec2b62..2749e07 100644
--- a/pygrt/C_extension/src/modal/grt_eigenfn.c
+++ b/pygrt/C_extension/src/modal/grt_eigenfn.c
@@ -198,7 +198,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                             GRTBadOptionError(N, "n1(%zd) > n2(%zd).", a1, a2);
                         }
                     }
-                    Ctrl->N.nmode = floor((a2-a1)/dif) + 1;
+                    Ctrl->N.nmode = grt_range_count(a1, a2, dif);
                     Ctrl->N.modes = (size_t *)calloc(Ctrl->N.nmode, sizeof(size_t));
                     for(size_t i=0; i < Ctrl->N.nmode; ++i){
                         Ctrl->N.modes[i] = a1 + dif*i;
@@ -259,7 +259,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                     }
 
                     if(nscan == 3 || nscan == 1){
-                        Ctrl->F.nf = floor((a2-a1)/df) + 1;
+                        Ctrl->F.nf = grt_range_count(a1, a2, df);
                         Ctrl->F.freqs = (real_t*)calloc(Ctrl->F.nf, sizeof(real_t));
                         for(size_t i=0; i<Ctrl->F.nf; ++i){
                             if(isperiod){
@@ -374,7 +374,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                                     }
                                 }
 
-                                Ctrl->W.nz = floor((a2-a1)/dif) + 1;
+                                Ctrl->W.nz = grt_range_count(a1, a2, dif);
                                 Ctrl->W.zs = (real_t*)calloc(Ctrl->W.nz, sizeof(real_t));
                                 for(size_t i=0; i<Ctrl->W.nz; ++i){
                                     Ctrl->W.zs[i] = a1 + dif*i;
diff --git a/pygrt/C_extension/src/modal/grt_eigenv.c b/pygrt/C_extension/src/modal/grt_eigenv.c
index ae5b2b5..79bfe61 100644
--- a/pygrt/C_extension/src/modal/grt_eigenv.c
+++ b/pygrt/C_extension/src/modal/grt_eigenv.c
@@ -289,7 +289,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         }
                     }
 
-                    Ctrl->F.nf = floor((a2-a1)/df) + 1;
+                    Ctrl->F.nf = grt_range_count(a1, a2, df);
                     Ctrl->F.freqs = (real_t*)calloc(Ctrl->F.nf, sizeof(real_t));
                     for(size_t i = 0; i < Ctrl->F.nf; ++i){
                         if(isperiod){
diff --git a/pygrt/C_extension/src/modal/grt_modsum.c b/pygrt/C_extension/src/modal/grt_modsum.c
index 755a52e..b07a2b7 100644
--- a/pygrt/C_extension/src/modal/grt_modsum.c
+++ b/pygrt/C_extension/src/modal/grt_modsum.c
@@ -274,7 +274,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                             GRTBadOptionError(N, "n1(%zd) > n2(%zd).", a1, a2);
                         }
                     }
-                    Ctrl->N.nmode = floor((a2-a1)/dif) + 1;
+                    Ctrl->N.nmode = grt_range_count(a1, a2, dif);
                     Ctrl->N.modes = (size_t *)calloc(Ctrl->N.nmode, sizeof(size_t));
                     for(size_t i=0; i < Ctrl->N.nmode; ++i){
                         Ctrl->N.modes[i] = a1 + dif*i;
diff --git a/pygrt/C_extension/src/okada/grt_okada.c b/pygrt/C_extension/src/okada/grt_okada.c
index ddc4711..e05d649 100644
--- a/pygrt/C_extension/src/okada/grt_okada.c
+++ b/pygrt/C_extension/src/okada/grt_okada.c
@@ -210,7 +210,7 @@ static void parse_axis(const char *text, char option, size_t *n, real_t **values
     if(sscanf(text, "%lf/%lf/%lf", &a1, &a2, &delta) != 3 || delta <= 0.0 || a1 > a2){
         GRTRaiseError("Error in \"-%c\". expected x1/x2/dx with x1 <= x2 and dx > 0. Use \"-h\" for help.\n", option);
     }
-    *n = (size_t)floor((a2 - a1) / delta) + 1;
+    *n = grt_range_count(a1, a2, delta);
     *values = (real_t *)calloc(*n, sizeof(real_t));
     if(*values == NULL) GRTRaiseError("failed to allocate receiver axis.");
     for(size_t i = 0; i < *n; ++i) (*values)[i] = a1 + i * delta;
diff --git a/pygrt/C_extension/src/static/grt_static_greenfn.c b/pygrt/C_extension/src/static/grt_static_greenfn.c
index 5ce7c6d..c143e89 100644
--- a/pygrt/C_extension/src/static/grt_static_greenfn.c
+++ b/pygrt/C_extension/src/static/grt_static_greenfn.c
@@ -467,7 +467,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         GRTBadOptionError(X, "x1(%f) > x2(%f).", a1, a2);
                     }
 
-                    Ctrl->X.nnorth = floor((a2-a1)/delta) + 1;
+                    Ctrl->X.nnorth = grt_range_count(a1, a2, delta);
                     Ctrl->X.norths = (real_t*)calloc(Ctrl->X.nnorth, sizeof(real_t));
                     for(size_t i=0; i<Ctrl->X.nnorth; ++i){
                         Ctrl->X.norths[i] = a1 + delta*i;
@@ -490,7 +490,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         GRTBadOptionError(Y, "y1(%f) > y2(%f).", a1, a2);
                     }
 
-                    Ctrl->Y.neast = floor((a2-a1)/delta) + 1;
+                    Ctrl->Y.neast = grt_range_count(a1, a2, delta);
                     Ctrl->Y.easts = (real_t*)calloc(Ctrl->Y.neast, sizeof(real_t));
                     for(size_t i=0; i<Ctrl->Y.neast; ++i){
                         Ctrl->Y.easts[i] = a1 + delta*i;
diff --git a/pygrt/C_extension/src/static/grt_static_syn.c b/pygrt/C_extension/src/static/grt_static_syn.c
index aa07e37..f8ba7ae 100644
--- a/pygrt/C_extension/src/static/grt_static_syn.c
+++ b/pygrt/C_extension/src/static/grt_static_syn.c
@@ -494,7 +494,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         GRTBadOptionError(X, "x1(%f) > x2(%f).", a1, a2);
                     }
 
-                    Ctrl->X.nnorth = floor((a2-a1)/delta) + 1;
+                    Ctrl->X.nnorth = grt_range_count(a1, a2, delta);
                     Ctrl->X.norths = (real_t*)calloc(Ctrl->X.nnorth, sizeof(real_t));
                     for(size_t i=0; i<Ctrl->X.nnorth; ++i){
                         Ctrl->X.norths[i] = a1 + delta*i;
@@ -517,7 +517,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         GRTBadOptionError(Y, "y1(%f) > y2(%f).", a1, a2);
                     }
 
-                    Ctrl->Y.neast = floor((a2-a1)/delta) + 1;
+                    Ctrl->Y.neast = grt_range_count(a1, a2, delta);
                     Ctrl->Y.easts = (real_t*)calloc(Ctrl->Y.neast, sizeof(real_t));
                     for(size_t i=0; i<Ctrl->Y.neast; ++i){
                         Ctrl->Y.easts[i] = a1 + delta*i;
diff --git a/pygrt/C_extension/src/tools/grt_disp2asc.c b/pygrt/C_extension/src/tools/grt_disp2asc.c
index 253e2f0..bb5b244 100644
--- a/pygrt/C_extension/src/tools/grt_disp2asc.c
+++ b/pygrt/C_extension/src/tools/grt_disp2asc.c
@@ -151,7 +151,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                             GRTBadOptionError(N, "n1(%zd) > n2(%zd).", a1, a2);
                         }
                     }
-                    Ctrl->N.nmode = floor((a2-a1)/dif) + 1;
+                    Ctrl->N.nmode = grt_range_count(a1, a2, dif);
                     Ctrl->N.modes = (size_t *)calloc(Ctrl->N.nmode, sizeof(size_t));
                     for(size_t i=0; i < Ctrl->N.nmode; ++i){
                         Ctrl->N.modes[i] = a1 + dif*i;
@@ -212,7 +212,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                     }
 
                     if(nscan == 3 || nscan == 1){
-                        Ctrl->F.nf = floor((a2-a1)/df) + 1;
+                        Ctrl->F.nf = grt_range_count(a1, a2, df);
                         Ctrl->F.freqs = (real_t*)calloc(Ctrl->F.nf, sizeof(real_t));
                         for(size_t i=0; i<Ctrl->F.nf; ++i){
                             if(isperiod){
diff --git a/pygrt/C_extension/src/tools/grt_travt.c b/pygrt/C_extension/src/tools/grt_travt.c
index e24b3dc..5007bfc 100644
--- a/pygrt/C_extension/src/tools/grt_travt.c
+++ b/pygrt/C_extension/src/tools/grt_travt.c
@@ -171,7 +171,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                             place++;
                         } while (place < 8);  // 最多小数点后 8 位
 
-                        Ctrl->R.nr = floor((a2-a1)/delta) + 1;
+                        Ctrl->R.nr = grt_range_count(a1, a2, delta);
                         Ctrl->R.s_rs = (char **)calloc(Ctrl->R.nr, sizeof(char*) * Ctrl->R.nr);
                         for(size_t ir = 0; ir < Ctrl->R.nr; ++ir){
                             GRT_SAFE_ASPRINTF(&Ctrl->R.s_rs[ir], "%.*f", place, a1 + delta*ir);
-- 
2.43.0


From 52c5c455f81122f373232c050664a40acb120094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:10 +0000
Subject: [PATCH 10/14] fix: nearly equal distances of a static library are
 bracketed as equally spaced, up to reading out of bounds

---
 pygrt/C_extension/src/static/grt_static_syn.c | 2 +-
 pygrt/C_extension/src/static/stgrnlib.c       | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/src/static/grt_static_syn.c b/pygrt/C_extension/src/static/grt_static_syn.c
index f8ba7ae..d460783 100644
--- a/pygrt/C_extension/src/static/grt_static_syn.c
+++ b/pygrt/C_extension/src/static/grt_static_syn.c
@@ -702,7 +702,7 @@ static void static_syn_from_gf(
 
         size_t sort_ir_pick = 0, sort_ir_pick1 = 0;
         if(isUniform){
-            sort_ir_pick = (size_t)((dist - sort_rs0[0]) / dr);
+            sort_ir_pick = GRT_MIN((size_t)((dist - sort_rs0[0]) / dr), nr0-1);
         } else {
             for(sort_ir_pick = 0; sort_ir_pick < nr0-1; ++sort_ir_pick)   if(sort_rs0[sort_ir_pick+1] > dist)  break;
         }
diff --git a/pygrt/C_extension/src/static/stgrnlib.c b/pygrt/C_extension/src/static/stgrnlib.c
index 043d808..ad0e60a 100644
--- a/pygrt/C_extension/src/static/stgrnlib.c
+++ b/pygrt/C_extension/src/static/stgrnlib.c
@@ -50,7 +50,8 @@ static void fill_rs_meta(STGRNLIB *lib)
     lib->isUniform = (lib->nr > 2);
     lib->dr = (lib->nr > 1) ? (lib->rs[1] - lib->rs[0]) : 0.0;
     for(size_t ir = 1; ir + 1 < lib->nr; ++ir){
-        if(fabs(2.0 * lib->rs[ir] - (lib->rs[ir - 1] + lib->rs[ir + 1])) > 1e-3
+        // 与理想等距位置比较，偏差不随点数累积，容差相对于步长
+        if(fabs(lib->rs[ir + 1] - (lib->rs[0] + (ir + 1) * lib->dr)) > 1e-6 * lib->dr
            || lib->rs[ir - 1] >= lib->rs[ir]
            || lib->rs[ir] >= lib->rs[ir + 1]){
             lib->isUniform = false;
-- 
2.43.0


From 4520dd633d3e3ba25bdda384457ea14c7d472445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:53 +0000
Subject: [PATCH 11/14] fix: finite fault whose size is a whole multiple of the
 piece fails on a zero-size last piece

---
 pygrt/C_extension/src/common/finite_fault.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/src/common/finite_fault.c b/pygrt/C_extension/src/common/finite_fault.c
index cf66b3d..7e27e61 100644
--- a/pygrt/C_extension/src/common/finite_fault.c
+++ b/pygrt/C_extension/src/common/finite_fault.c
@@ -188,8 +188,9 @@ void grt_finite_fault_subdiv(
     if(*W <= 0.0 || *L <= 0.0){
         GRTRaiseError("fault along-dip/along-strike length must be positive (W=%.6g, L=%.6g).", *W, *L);
     }
-    *nW = GRT_MAX(1, (size_t)ceil(*W / dW));
-    *nL = GRT_MAX(1, (size_t)ceil(*L / dL));
+    // 容许舍入误差，恰为整数倍时不多出一个零尺寸的子断层
+    *nW = GRT_MAX(1, (size_t)ceil(*W / dW - 1e-9));
+    *nL = GRT_MAX(1, (size_t)ceil(*L / dL - 1e-9));
 }
 
 
-- 
2.43.0


From 1a0d839d1ed8fb9d1c0a3aca440ac97ed8c36e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:10 +0000
Subject: [PATCH 12/14] fix: automatic integration length uses the begin time
 of the window (source-receiver distance, not epicentral distance)

---
 pygrt/C_extension/src/dynamic/grt_greenfn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/dynamic/grt_greenfn.c b/pygrt/C_extension/src/dynamic/grt_greenfn.c
index 82257c0..1ffadbd 100644
--- a/pygrt/C_extension/src/dynamic/grt_greenfn.c
+++ b/pygrt/C_extension/src/dynamic/grt_greenfn.c
@@ -873,7 +873,7 @@ static void prepare_grn_spec(
     real_t tmax = 0.0;
     if(!refFirstP){
         tmax = delayT0 + winT;
-        if(delayV0 > 0.0)   tmax += rmax / delayV0;
+        if(delayV0 > 0.0)   tmax += hypot(rmax, mod1d->deprcv - mod1d->depsrc) / delayV0;
     } else {
         real_t maxP = grt_compute_travt1d(mod1d->Thk, mod1d->Va, mod1d->n, mod1d->isrc, mod1d->ircv, rmax);
         tmax = delayT0 + maxP + winT;
-- 
2.43.0


From a1103ffa8f01364f115aeb1731b72e1289ef1520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:33 +0000
Subject: [PATCH 13/14] fix: first arrival misses head waves below slow
 refractors and takes the velocity beside the path for points on an interface

---
 pygrt/C_extension/src/common/travt.c | 49 ++++++++++------------------
 1 file changed, 17 insertions(+), 32 deletions(-)

diff --git a/pygrt/C_extension/src/common/travt.c b/pygrt/C_extension/src/common/travt.c
index 8d741cb..cf39115 100644
--- a/pygrt/C_extension/src/common/travt.c
+++ b/pygrt/C_extension/src/common/travt.c
@@ -39,11 +39,8 @@ real_t grt_compute_travt1d(
     }
     
 
-    // 震源和场点速度
+    // 震源速度
     real_t vsrc = Vel[isrc];
-    real_t vrcv = Vel[ircv];
-    real_t vmax = (vsrc < vrcv)? vrcv : vsrc;
-    real_t vmin = (vsrc < vrcv)? vsrc : vrcv;
     // 震源和场点深度
     real_t depsrc=0.0, deprcv=0.0;
     for(size_t i = 0; i < isrc; ++i) {depsrc += Thk[i];} 
@@ -95,12 +92,14 @@ real_t grt_compute_travt1d(
         const int nloop=50; 
         // 最小震中距差
         const real_t minX=1e-3;
-        // 找到慢度上限，准确说是各层中最大慢度的最小值
-        real_t pmax0=1.0/vmax;
-        for(size_t i = imin; i <= imax; ++i){
+        // 找到慢度上限，准确说是射线穿过的各层中最大慢度的最小值。
+        // 震源或场点位于界面上时，厚度为 0 的那一层不在射线路径上
+        real_t vpath=0.0;
+        for(size_t i = imin; i < imax; ++i){
             if(Thk[i] == 0.0) continue;
-            if(pmax0 > 1.0/Vel[i])  pmax0 = 1.0/Vel[i];
+            vpath = GRT_MAX(vpath, Vel[i]);
         }
+        real_t pmax0=1.0/vpath;
         // 初始化一些迭代变量
         real_t pmin=0.0, pmax=pmax0;
         real_t p;
@@ -182,14 +181,12 @@ real_t grt_compute_travt1d(
             p = 1.0/v;
             badrefrac = false;
 
-            // 两点处的速度必须比透射点的速度低，且透射点速度是整个路径上最快速度
-            if(vmin >= v)  continue;
-            if(vmax >= v)  continue;
-
+            // 透射点速度必须是整个路径上最快速度，在以下循环中逐层判断
             sumt = sumx = 0.0;
             // imax到imin的单边
             for(size_t i = imin; i < imax; ++i){
-                if(Vel[i] > v) {
+                if(Thk[i] == 0.0) continue;
+                if(Vel[i] >= v) {
                     badrefrac = true;
                     break;
                 } 
@@ -209,14 +206,12 @@ real_t grt_compute_travt1d(
                 }
             }
 
-            // 不考虑透射部分，走时已经超过当前最小走时，透射循环可结束
-            if(sumt > travt) break;
-
             if(badrefrac) continue;
 
             // m到imin的双边
             for(size_t i = m+1; i < imin; ++i){
-                if(Vel[i] > v) {
+                if(Thk[i] == 0.0) continue;
+                if(Vel[i] >= v) {
                     badrefrac = true;
                     break;
                 } 
@@ -236,9 +231,6 @@ real_t grt_compute_travt1d(
                 }
             }
 
-            // 不考虑透射部分，走时已经超过当前最小走时，透射循环可结束
-            if(sumt > travt) break;
-
             if(badrefrac) continue;
 
             // printf("up m=%d, refracted wave, sumt=%f, sumx=%f\n", m, sumt, sumx);
@@ -294,14 +286,12 @@ real_t grt_compute_travt1d(
         p = 1.0/v;
         badrefrac = false;
 
-        // 两点处的速度必须比透射点的速度低，且透射点速度是整个路径上最快速度
-        if(vmin >= v)  continue;
-        if(vmax >= v)  continue;
-
+        // 透射点速度必须是整个路径上最快速度，在以下循环中逐层判断
         sumt = sumx = 0.0;
         // imax到imin的单边
         for(size_t i = imin; i < imax; ++i){
-            if(Vel[i] > v) {
+            if(Thk[i] == 0.0) continue;
+            if(Vel[i] >= v) {
                 badrefrac = true;
                 break;
             } 
@@ -321,14 +311,12 @@ real_t grt_compute_travt1d(
             }
         }
 
-        // 不考虑透射部分，走时已经超过当前最小走时，透射循环可结束
-        if(sumt > travt) break;
-
         if(badrefrac) continue;
 
         // m到imin的双边
         for(size_t i = imax; i < m; ++i){
-            if(Vel[i] > v) {
+            if(Thk[i] == 0.0) continue;
+            if(Vel[i] >= v) {
                 badrefrac = true;
                 break;
             } 
@@ -348,9 +336,6 @@ real_t grt_compute_travt1d(
             }
         }
 
-        // 不考虑透射部分，走时已经超过当前最小走时，透射循环可结束
-        if(sumt > travt) break;
-
         if(badrefrac) continue;
 
         // printf("down m=%d, refracted wave, sumt=%f, sumx=%f\n", m, sumt, sumx);
-- 
2.43.0


From 8119db702beb5798d4567ddcd120ce057ca613e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:10 +0000
Subject: [PATCH 14/14] fix: okada tensile point source scaled by mu/lambda
 (area times opening is the potency, as in static_syn)

---
 pygrt/C_extension/src/okada/grt_okada.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/okada/grt_okada.c b/pygrt/C_extension/src/okada/grt_okada.c
index e05d649..cf29f8d 100644
--- a/pygrt/C_extension/src/okada/grt_okada.c
+++ b/pygrt/C_extension/src/okada/grt_okada.c
@@ -412,7 +412,8 @@ static void add_point_source(const GRT_MODULE_CTRL *ctrl, const OKADA_MEDIUM_PAR
         pot1 = scalar * cos(ctrl->M.rake * DEG1);
         pot2 = scalar * sin(ctrl->M.rake * DEG1);
     } else {
-        pot3 = ctrl->S.mult_src_mu ? ctrl->S.value * medium->mu / medium->lambda : ctrl->S.value / medium->lambda;
+        // 张裂源的 M0 与 static_syn 一致，为 mu * 面积 * 张开距离，故 potency 同样为 M0 / mu
+        pot3 = scalar;
     }
 
     // Okada 点源输出的位移和偏导分别需要乘以 1e-10 和 1e-15
-- 
2.43.0

