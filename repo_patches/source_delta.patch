From e6fe67beaad0c53176a94f6062a694d394caf1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 01/25] fix: struct/handed euler_to_quat headers could not be
 included

---
 include/cglm/struct/handed/euler_to_quat_lh.h | 4 +++-
 include/cglm/struct/handed/euler_to_quat_rh.h | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/cglm/struct/handed/euler_to_quat_lh.h b/include/cglm/struct/handed/euler_to_quat_lh.h
index 3964e51..f895d93 100644
--- a/include/cglm/struct/handed/euler_to_quat_lh.h
+++ b/include/cglm/struct/handed/euler_to_quat_lh.h
@@ -18,7 +18,9 @@
 #ifndef cglms_euler_to_quat_lh_h
 #define cglms_euler_to_quat_lh_h
 
-#include "../common.h"
+#include "../../common.h"
+#include "../../types-struct.h"
+#include "../../handed/euler_to_quat_lh.h"
 
 
 /*!
diff --git a/include/cglm/struct/handed/euler_to_quat_rh.h b/include/cglm/struct/handed/euler_to_quat_rh.h
index 6c7f400..d1a7967 100644
--- a/include/cglm/struct/handed/euler_to_quat_rh.h
+++ b/include/cglm/struct/handed/euler_to_quat_rh.h
@@ -18,7 +18,9 @@
 #ifndef cglms_euler_to_quat_rh_h
 #define cglms_euler_to_quat_rh_h
 
-#include "../common.h"
+#include "../../common.h"
+#include "../../types-struct.h"
+#include "../../handed/euler_to_quat_rh.h"
 
 
 /*!
-- 
2.43.0


From 87d7a374dadd735243ad66ace1ee05d61c5237ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 02/25] fix: glms_aabb2d_radius called the nonexistent
 glms_aabb2d_size

---
 include/cglm/struct/aabb2d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/struct/aabb2d.h b/include/cglm/struct/aabb2d.h
index 9077069..d7c13f1 100644
--- a/include/cglm/struct/aabb2d.h
+++ b/include/cglm/struct/aabb2d.h
@@ -168,7 +168,7 @@ glms_aabb2d_(sizev)(vec2s aabb[2]) {
 CGLM_INLINE
 float
 glms_aabb2d_(radius)(vec2s aabb[2]) {
-  return glms_aabb2d_(size)(aabb) * 0.5f;
+  return glms_aabb2d_(diag)(aabb) * 0.5f;
 }
 
 /*!
-- 
2.43.0


From b4024819f4f02b2126de7240122c15aa32603f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:36 +0000
Subject: [PATCH 03/25] fix: vec4 normalize with SSE/WASM compared squared norm
 with FLT_EPSILON

---
 include/cglm/vec4.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cglm/vec4.h b/include/cglm/vec4.h
index ded09c9..41b7891 100644
--- a/include/cglm/vec4.h
+++ b/include/cglm/vec4.h
@@ -917,7 +917,7 @@ glm_vec4_normalize_to(vec4 v, vec4 dest) {
   /* dot  = _mm_cvtss_f32(xdot); */
   dot  = wasm_f32x4_extract_lane(xdot, 0);
 
-  if (CGLM_UNLIKELY(dot < FLT_EPSILON)) {
+  if (CGLM_UNLIKELY(dot < FLT_EPSILON * FLT_EPSILON)) {
     glmm_store(dest, wasm_f32x4_const_splat(0.f));
     return;
   }
@@ -931,7 +931,7 @@ glm_vec4_normalize_to(vec4 v, vec4 dest) {
   xdot = glmm_vdot(x0, x0);
   dot  = _mm_cvtss_f32(xdot);
 
-  if (CGLM_UNLIKELY(dot < FLT_EPSILON)) {
+  if (CGLM_UNLIKELY(dot < FLT_EPSILON * FLT_EPSILON)) {
     glmm_store(dest, _mm_setzero_ps());
     return;
   }
-- 
2.43.0


From 129a6db771c270e926a13fed17202b2cb1ce5dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:29 +0000
Subject: [PATCH 04/25] fix: glm_sign returned 0 for INT_MIN (signed overflow)

---
 include/cglm/util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/util.h b/include/cglm/util.h
index 8c5f2cb..96a1988 100644
--- a/include/cglm/util.h
+++ b/include/cglm/util.h
@@ -48,7 +48,7 @@
 CGLM_INLINE
 int
 glm_sign(int val) {
-  return ((val >> 31) - (-val >> 31));
+  return (val > 0) - (val < 0);
 }
 
 /*!
-- 
2.43.0


From d7881f823b3359a5b98dc6324757c531c79131b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:03 +0000
Subject: [PATCH 05/25] fix: quat to matrix conversions divided by the norm
 instead of its square

---
 include/cglm/quat.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cglm/quat.h b/include/cglm/quat.h
index cf1f325..02da3ae 100644
--- a/include/cglm/quat.h
+++ b/include/cglm/quat.h
@@ -487,7 +487,7 @@ glm_quat_mat4(versor q, mat4 dest) {
         xy, yz, xz,
         wx, wy, wz, norm, s;
 
-  norm = glm_quat_norm(q);
+  norm = glm_vec4_norm2(q);
   s    = norm > 0.0f ? 2.0f / norm : 0.0f;
 
   x = q[0];
@@ -534,7 +534,7 @@ glm_quat_mat4t(versor q, mat4 dest) {
         xy, yz, xz,
         wx, wy, wz, norm, s;
 
-  norm = glm_quat_norm(q);
+  norm = glm_vec4_norm2(q);
   s    = norm > 0.0f ? 2.0f / norm : 0.0f;
 
   x = q[0];
@@ -581,7 +581,7 @@ glm_quat_mat3(versor q, mat3 dest) {
         xy, yz, xz,
         wx, wy, wz, norm, s;
 
-  norm = glm_quat_norm(q);
+  norm = glm_vec4_norm2(q);
   s    = norm > 0.0f ? 2.0f / norm : 0.0f;
 
   x = q[0];
@@ -620,7 +620,7 @@ glm_quat_mat3t(versor q, mat3 dest) {
         xy, yz, xz,
         wx, wy, wz, norm, s;
 
-  norm = glm_quat_norm(q);
+  norm = glm_vec4_norm2(q);
   s    = norm > 0.0f ? 2.0f / norm : 0.0f;
 
   x = q[0];
-- 
2.43.0


From a9033cc230d6f11a2f3d34e8c198233347f43d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:03 +0000
Subject: [PATCH 06/25] fix: slerp between nearly opposite quaternions
 interpolated without flipping the sign

---
 include/cglm/quat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/quat.h b/include/cglm/quat.h
index 02da3ae..cb2ba69 100644
--- a/include/cglm/quat.h
+++ b/include/cglm/quat.h
@@ -730,7 +730,7 @@ glm_quat_slerp(versor from, versor to, float t, versor dest) {
 
   /* LERP to avoid zero division */
   if (fabsf(sinTheta) < 0.001f) {
-    glm_quat_lerp(from, to, t, dest);
+    glm_quat_lerp(q1, to, t, dest);
     return;
   }
 
-- 
2.43.0


From 87e7eb89dd38a212da381152f5736111614c2288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 07/25] fix: post rotations dropped the translation of the
 transform

---
 include/cglm/affine-post.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cglm/affine-post.h b/include/cglm/affine-post.h
index 3e297e6..a83c637 100644
--- a/include/cglm/affine-post.h
+++ b/include/cglm/affine-post.h
@@ -130,7 +130,7 @@ glm_rotated_x(mat4 m, float angle, mat4 dest) {
   t[2][1] = -s;
   t[2][2] =  c;
 
-  glm_mul_rot(t, m, dest);
+  glm_mul(t, m, dest);
 }
 
 /*!
@@ -157,7 +157,7 @@ glm_rotated_y(mat4 m, float angle, mat4 dest) {
   t[2][0] =  s;
   t[2][2] =  c;
 
-  glm_mul_rot(t, m, dest);
+  glm_mul(t, m, dest);
 }
 
 /*!
@@ -184,7 +184,7 @@ glm_rotated_z(mat4 m, float angle, mat4 dest) {
   t[1][0] = -s;
   t[1][1] =  c;
 
-  glm_mul_rot(t, m, dest);
+  glm_mul(t, m, dest);
 }
 
 /*!
@@ -201,7 +201,7 @@ void
 glm_rotated(mat4 m, float angle, vec3 axis) {
   CGLM_ALIGN_MAT mat4 rot;
   glm_rotate_make(rot, angle, axis);
-  glm_mul_rot(rot, m, m);
+  glm_mul(rot, m, m);
 }
 
 /*!
-- 
2.43.0


From 63448cd9d2b03f283ce28e8ab7684764ceb00173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 08/25] fix: glm_rotated_at rotated around the negated pivot

---
 include/cglm/affine-post.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cglm/affine-post.h b/include/cglm/affine-post.h
index a83c637..f312618 100644
--- a/include/cglm/affine-post.h
+++ b/include/cglm/affine-post.h
@@ -222,9 +222,9 @@ glm_rotated_at(mat4 m, vec3 pivot, float angle, vec3 axis) {
 
   glm_vec3_negate_to(pivot, pivotInv);
 
-  glm_translated(m, pivot);
-  glm_rotated(m, angle, axis);
   glm_translated(m, pivotInv);
+  glm_rotated(m, angle, axis);
+  glm_translated(m, pivot);
 }
 
 /*!
-- 
2.43.0


From 354dbeef795b7c7100e05dd13a67ffa664fdbe2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 09/25] fix: glm_spin moved the transform instead of rotating
 it around itself

---
 include/cglm/affine-pre.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cglm/affine-pre.h b/include/cglm/affine-pre.h
index 2fa77f7..7e94cfa 100644
--- a/include/cglm/affine-pre.h
+++ b/include/cglm/affine-pre.h
@@ -297,8 +297,8 @@ CGLM_INLINE
 void
 glm_spin(mat4 m, float angle, vec3 axis) {
   CGLM_ALIGN_MAT mat4 rot;
-  glm_rotate_atm(rot, m[3], angle, axis);
-  glm_mat4_mul(m, rot, m);
+  glm_rotate_make(rot, angle, axis);
+  glm_mul_rot(m, rot, m);
 }
 
 #endif /* cglm_affine_pre_h */
-- 
2.43.0


From 56deb2b6b3a1618b6eddde811709012fb868f79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 10/25] fix: left-handed ortho_aabb placed the box behind the
 viewer

---
 include/cglm/clipspace/ortho_lh_no.h | 6 +++---
 include/cglm/clipspace/ortho_lh_zo.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cglm/clipspace/ortho_lh_no.h b/include/cglm/clipspace/ortho_lh_no.h
index 76c7a94..71f2c89 100644
--- a/include/cglm/clipspace/ortho_lh_no.h
+++ b/include/cglm/clipspace/ortho_lh_no.h
@@ -83,7 +83,7 @@ void
 glm_ortho_aabb_lh_no(vec3 box[2], mat4 dest) {
   glm_ortho_lh_no(box[0][0],  box[1][0],
                   box[0][1],  box[1][1],
-                 -box[1][2], -box[0][2],
+                  box[0][2],  box[1][2],
                   dest);
 }
 
@@ -103,7 +103,7 @@ void
 glm_ortho_aabb_p_lh_no(vec3 box[2], float padding, mat4 dest) {
   glm_ortho_lh_no(box[0][0] - padding,    box[1][0] + padding,
                   box[0][1] - padding,    box[1][1] + padding,
-                -(box[1][2] + padding), -(box[0][2] - padding),
+                  box[0][2] - padding,    box[1][2] + padding,
                   dest);
 }
 
@@ -123,7 +123,7 @@ void
 glm_ortho_aabb_pz_lh_no(vec3 box[2], float padding, mat4 dest) {
   glm_ortho_lh_no(box[0][0],              box[1][0],
                   box[0][1],              box[1][1],
-                -(box[1][2] + padding), -(box[0][2] - padding),
+                  box[0][2] - padding,    box[1][2] + padding,
                   dest);
 }
 
diff --git a/include/cglm/clipspace/ortho_lh_zo.h b/include/cglm/clipspace/ortho_lh_zo.h
index e45530d..9c88eb0 100644
--- a/include/cglm/clipspace/ortho_lh_zo.h
+++ b/include/cglm/clipspace/ortho_lh_zo.h
@@ -81,7 +81,7 @@ void
 glm_ortho_aabb_lh_zo(vec3 box[2], mat4 dest) {
   glm_ortho_lh_zo(box[0][0],  box[1][0],
                   box[0][1],  box[1][1],
-                 -box[1][2], -box[0][2],
+                  box[0][2],  box[1][2],
                   dest);
 }
 
@@ -100,7 +100,7 @@ void
 glm_ortho_aabb_p_lh_zo(vec3 box[2], float padding, mat4 dest) {
   glm_ortho_lh_zo(box[0][0] - padding,    box[1][0] + padding,
                   box[0][1] - padding,    box[1][1] + padding,
-                -(box[1][2] + padding), -(box[0][2] - padding),
+                  box[0][2] - padding,    box[1][2] + padding,
                   dest);
 }
 
@@ -119,7 +119,7 @@ void
 glm_ortho_aabb_pz_lh_zo(vec3 box[2], float padding, mat4 dest) {
   glm_ortho_lh_zo(box[0][0],              box[1][0],
                   box[0][1],              box[1][1],
-                -(box[1][2] + padding), -(box[0][2] - padding),
+                  box[0][2] - padding,    box[1][2] + padding,
                   dest);
 }
 
-- 
2.43.0


From f4ad107aec6b62477aa624fc314e57dd839da306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 11/25] fix: left-handed off-center frustum was mirrored around
 the view axis

---
 include/cglm/clipspace/persp_lh_no.h | 12 ++++++------
 include/cglm/clipspace/persp_lh_zo.h | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/cglm/clipspace/persp_lh_no.h b/include/cglm/clipspace/persp_lh_no.h
index d28923a..632ca0f 100644
--- a/include/cglm/clipspace/persp_lh_no.h
+++ b/include/cglm/clipspace/persp_lh_no.h
@@ -79,8 +79,8 @@ glm_frustum_lh_no(float left,    float right,
 
   dest[0][0] = nv * rl;
   dest[1][1] = nv * tb;
-  dest[2][0] = (right  + left)    * rl;
-  dest[2][1] = (top    + bottom)  * tb;
+  dest[2][0] =-(right  + left)    * rl;
+  dest[2][1] =-(top    + bottom)  * tb;
   dest[2][2] =-(farZ + nearZ) * fn;
   dest[2][3] = 1.0f;
   dest[3][2] = farZ * nv * fn;
@@ -201,8 +201,8 @@ glm_persp_decomp_lh_no(mat4 proj,
 
   m00 = proj[0][0];
   m11 = proj[1][1];
-  m20 = proj[2][0];
-  m21 = proj[2][1];
+  m20 =-proj[2][0];
+  m21 =-proj[2][1];
   m22 =-proj[2][2];
   m32 = proj[3][2];
 
@@ -254,7 +254,7 @@ glm_persp_decomp_x_lh_no(mat4 proj,
   float nearZ, m20, m00, m22;
 
   m00 = proj[0][0];
-  m20 = proj[2][0];
+  m20 =-proj[2][0];
   m22 =-proj[2][2];
 
   nearZ = proj[3][2] / (m22 - 1.0f);
@@ -279,7 +279,7 @@ glm_persp_decomp_y_lh_no(mat4 proj,
                          float * __restrict bottom) {
   float nearZ, m21, m11, m22;
 
-  m21 = proj[2][1];
+  m21 =-proj[2][1];
   m11 = proj[1][1];
   m22 =-proj[2][2];
 
diff --git a/include/cglm/clipspace/persp_lh_zo.h b/include/cglm/clipspace/persp_lh_zo.h
index de89643..488becf 100644
--- a/include/cglm/clipspace/persp_lh_zo.h
+++ b/include/cglm/clipspace/persp_lh_zo.h
@@ -78,8 +78,8 @@ glm_frustum_lh_zo(float left,    float right,
 
   dest[0][0] = nv * rl;
   dest[1][1] = nv * tb;
-  dest[2][0] = (right  + left)    * rl;
-  dest[2][1] = (top    + bottom)  * tb;
+  dest[2][0] =-(right  + left)    * rl;
+  dest[2][1] =-(top    + bottom)  * tb;
   dest[2][2] =-farZ * fn;
   dest[2][3] = 1.0f;
   dest[3][2] = farZ * nearZ * fn;
@@ -197,8 +197,8 @@ glm_persp_decomp_lh_zo(mat4 proj,
 
   m00 = proj[0][0];
   m11 = proj[1][1];
-  m20 = proj[2][0];
-  m21 = proj[2][1];
+  m20 =-proj[2][0];
+  m21 =-proj[2][1];
   m22 =-proj[2][2];
   m32 = proj[3][2];
 
@@ -248,7 +248,7 @@ glm_persp_decomp_x_lh_zo(mat4 proj,
   float nearZ, m20, m00;
 
   m00 = proj[0][0];
-  m20 = proj[2][0];
+  m20 =-proj[2][0];
 
   nearZ = proj[3][2] / (proj[3][3]);
   *left   = nearZ * (m20 - 1.0f) / m00;
@@ -272,7 +272,7 @@ glm_persp_decomp_y_lh_zo(mat4 proj,
                          float * __restrict bottom) {
   float nearZ, m21, m11;
 
-  m21 = proj[2][1];
+  m21 =-proj[2][1];
   m11 = proj[1][1];
 
   nearZ = proj[3][2] / (proj[3][3]);
-- 
2.43.0


From 7e33d4c9747c6d91d29609acbcbd3a48a270de18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:28 +0000
Subject: [PATCH 12/25] fix: lh_zo persp_decomp_x/y divided by zero when
 computing near

---
 include/cglm/clipspace/persp_lh_zo.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cglm/clipspace/persp_lh_zo.h b/include/cglm/clipspace/persp_lh_zo.h
index 488becf..36ecb36 100644
--- a/include/cglm/clipspace/persp_lh_zo.h
+++ b/include/cglm/clipspace/persp_lh_zo.h
@@ -250,7 +250,7 @@ glm_persp_decomp_x_lh_zo(mat4 proj,
   m00 = proj[0][0];
   m20 =-proj[2][0];
 
-  nearZ = proj[3][2] / (proj[3][3]);
+  nearZ = proj[3][2] / -proj[2][2];
   *left   = nearZ * (m20 - 1.0f) / m00;
   *right  = nearZ * (m20 + 1.0f) / m00;
 }
@@ -275,7 +275,7 @@ glm_persp_decomp_y_lh_zo(mat4 proj,
   m21 =-proj[2][1];
   m11 = proj[1][1];
 
-  nearZ = proj[3][2] / (proj[3][3]);
+  nearZ = proj[3][2] / -proj[2][2];
   *bottom = nearZ * (m21 - 1) / m11;
   *top    = nearZ * (m21 + 1) / m11;
 }
-- 
2.43.0


From 9d0eecdf1a972aecfa1e7ba33d79e7d44d4fe999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:21 +0000
Subject: [PATCH 13/25] fix: box-sphere and box-circle overlap measured the
 distance to the far side

---
 include/cglm/aabb2d.h | 4 ++--
 include/cglm/box.h    | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/cglm/aabb2d.h b/include/cglm/aabb2d.h
index 6369d08..03c6773 100644
--- a/include/cglm/aabb2d.h
+++ b/include/cglm/aabb2d.h
@@ -235,8 +235,8 @@ glm_aabb2d_circle(vec2 aabb[2], vec3 c) {
   a = (c[0] < aabb[0][0]) + (c[0] > aabb[1][0]);
   b = (c[1] < aabb[0][1]) + (c[1] > aabb[1][1]);
 
-  dmin  = glm_pow2((c[0] - aabb[!(a - 1)][0]) * (a != 0))
-        + glm_pow2((c[1] - aabb[!(b - 1)][1]) * (b != 0));
+  dmin  = glm_pow2((c[0] - aabb[c[0] > aabb[1][0]][0]) * (a != 0))
+        + glm_pow2((c[1] - aabb[c[1] > aabb[1][1]][1]) * (b != 0));
 
   return dmin <= glm_pow2(c[2]);
 }
diff --git a/include/cglm/box.h b/include/cglm/box.h
index 8bba678..a56909b 100644
--- a/include/cglm/box.h
+++ b/include/cglm/box.h
@@ -243,9 +243,9 @@ glm_aabb_sphere(vec3 box[2], vec4 s) {
   b = (s[1] < box[0][1]) + (s[1] > box[1][1]);
   c = (s[2] < box[0][2]) + (s[2] > box[1][2]);
 
-  dmin  = glm_pow2((s[0] - box[!(a - 1)][0]) * (a != 0))
-        + glm_pow2((s[1] - box[!(b - 1)][1]) * (b != 0))
-        + glm_pow2((s[2] - box[!(c - 1)][2]) * (c != 0));
+  dmin  = glm_pow2((s[0] - box[s[0] > box[1][0]][0]) * (a != 0))
+        + glm_pow2((s[1] - box[s[1] > box[1][1]][1]) * (b != 0))
+        + glm_pow2((s[2] - box[s[2] > box[1][2]][2]) * (c != 0));
 
   return dmin <= glm_pow2(s[3]);
 }
-- 
2.43.0


From 0524c3cd5f64f16dd85ecb7f7840756414ab6321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:21 +0000
Subject: [PATCH 14/25] fix: ray_sphere returned NaN for a ray that touches the
 sphere at its origin

---
 include/cglm/ray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/ray.h b/include/cglm/ray.h
index d7831bc..f1354f5 100644
--- a/include/cglm/ray.h
+++ b/include/cglm/ray.h
@@ -134,7 +134,7 @@ glm_ray_sphere(vec3 origin,
      "Numerical Recipes in C," Cambridge University Press, 1992.
    */
   _t1 = q;
-  _t2 = (dpp - r2) / q;
+  _t2 = (q != 0.0f) ? (dpp - r2) / q : 0.0f;
 
   /* adjust t1 and t2 to ensure t1 is the closer intersection */
   if (_t1 > _t2) {
-- 
2.43.0


From 65f0044f57e2bdcd83021aceee3a1573f9ddc59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:35 +0000
Subject: [PATCH 15/25] fix: ease_bounce_inout started at 0.5 and ran backwards
 in its first half

---
 include/cglm/ease.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/ease.h b/include/cglm/ease.h
index e26b48c..4f51bb4 100644
--- a/include/cglm/ease.h
+++ b/include/cglm/ease.h
@@ -309,7 +309,7 @@ CGLM_INLINE
 float
 glm_ease_bounce_inout(float t) {
   if (t < 0.5f)
-    return 0.5f * (1.0f - glm_ease_bounce_out(t * 2.0f));
+    return 0.5f * glm_ease_bounce_in(t * 2.0f);
 
   return 0.5f * glm_ease_bounce_out(t * 2.0f - 1.0f) + 0.5f;
 }
-- 
2.43.0


From 026a745fbd3db50acf6b0be71876ba1b00fc5e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:38 +0000
Subject: [PATCH 16/25] fix: matrix printing chose the number format of the
 transposed element

---
 include/cglm/io.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/cglm/io.h b/include/cglm/io.h
index baa80f1..33c5d31 100644
--- a/include/cglm/io.h
+++ b/include/cglm/io.h
@@ -143,7 +143,7 @@ glm_mat4_print(mat4              matrix,
     fprintf(ostream, "  |");
 
     for (j = 0; j < n; j++)
-      if (matrix[i][j] < CGLM_PRINT_MAX_TO_SHORT)
+      if (matrix[j][i] < CGLM_PRINT_MAX_TO_SHORT)
         fprintf(ostream, " % *.*f", cw[j], CGLM_PRINT_PRECISION, (double)matrix[j][i]);
       else
         fprintf(ostream, " % *g", cw[j], (double)matrix[j][i]);
@@ -186,7 +186,7 @@ glm_mat3_print(mat3              matrix,
     fprintf(ostream, "  |");
 
     for (j = 0; j < n; j++)
-      if (matrix[i][j] < CGLM_PRINT_MAX_TO_SHORT)
+      if (matrix[j][i] < CGLM_PRINT_MAX_TO_SHORT)
         fprintf(ostream, " % *.*f", cw[j], CGLM_PRINT_PRECISION, (double)matrix[j][i]);
       else
         fprintf(ostream, " % *g", cw[j], (double)matrix[j][i]);
@@ -228,7 +228,7 @@ glm_mat2_print(mat2              matrix,
     fprintf(ostream, "  |");
 
     for (j = 0; j < n; j++)
-      if (matrix[i][j] < CGLM_PRINT_MAX_TO_SHORT)
+      if (matrix[j][i] < CGLM_PRINT_MAX_TO_SHORT)
         fprintf(ostream, " % *.*f", cw[j], CGLM_PRINT_PRECISION, (double)matrix[j][i]);
       else
         fprintf(ostream, " % *g", cw[j], (double)matrix[j][i]);
-- 
2.43.0


From 24ed4fe435468a2e4ed2f6f85d0cd50a4994971c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:35 +0000
Subject: [PATCH 17/25] fix: glmm256_fnmsub computed a*b-c instead of -(a*b)-c

---
 include/cglm/simd/x86.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cglm/simd/x86.h b/include/cglm/simd/x86.h
index 2410d0f..e44c3ba 100644
--- a/include/cglm/simd/x86.h
+++ b/include/cglm/simd/x86.h
@@ -353,9 +353,9 @@ static inline
 __m256
 glmm256_fnmsub(__m256 a, __m256 b, __m256 c) {
 #ifdef __FMA__
-  return _mm256_fmsub_ps(a, b, c);
+  return _mm256_fnmsub_ps(a, b, c);
 #else
-  return _mm256_xor_ps(_mm256_sub_ps(_mm256_mul_ps(a, b), c),
+  return _mm256_xor_ps(_mm256_add_ps(_mm256_mul_ps(a, b), c),
                        glmm_float32x8_SIGNMASK_NEG);
 #endif
 }
-- 
2.43.0


From bc94e3873be1e6aef80c961b8b7a65259627adc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:02 +0000
Subject: [PATCH 18/25] fix: vec2 min and isvalid ignored the configured struct
 API namespace

---
 include/cglm/struct/vec2-ext.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cglm/struct/vec2-ext.h b/include/cglm/struct/vec2-ext.h
index 246132f..12c62ff 100644
--- a/include/cglm/struct/vec2-ext.h
+++ b/include/cglm/struct/vec2-ext.h
@@ -134,7 +134,7 @@ glms_vec2_(max)(vec2s v) {
  */
 CGLM_INLINE
 float
-glms_vec2_min(vec2s v) {
+glms_vec2_(min)(vec2s v) {
   return glm_vec2_min(v.raw);
 }
 
@@ -170,7 +170,7 @@ glms_vec2_(isinf)(vec2s v) {
  */
 CGLM_INLINE
 bool
-glms_vec2_isvalid(vec2s v) {
+glms_vec2_(isvalid)(vec2s v) {
   return glm_vec2_isvalid(v.raw);
 }
 
-- 
2.43.0


From ffdfa51f134e18f0f372d7abd54cdb17d2550e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:04 +0000
Subject: [PATCH 19/25] fix: glms_pickmatrix returned uninitialized memory for
 an empty region

---
 include/cglm/struct/project.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cglm/struct/project.h b/include/cglm/struct/project.h
index 8383c77..bcd7cbc 100644
--- a/include/cglm/struct/project.h
+++ b/include/cglm/struct/project.h
@@ -155,6 +155,7 @@ CGLM_INLINE
 mat4s
 glms_pickmatrix(vec2s center, vec2s size, vec4s vp) {
   mat4s res;
+  glm_mat4_identity(res.raw); /* nothing is written for an empty region */
   glm_pickmatrix(center.raw, size.raw, vp.raw, res.raw);
   return res;
 }
-- 
2.43.0


From 48a04a794fdd4c7cd672e86f62329b7c226c7005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:59 +0000
Subject: [PATCH 20/25] fix: transpose_to and mat2 mulv read entries already
 overwritten when dest is the source

---
 include/cglm/mat2.h | 13 +++++++++----
 include/cglm/mat3.h | 13 +++++++------
 include/cglm/mat4.h | 20 ++++++++++++--------
 3 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/include/cglm/mat2.h b/include/cglm/mat2.h
index 5bec482..f467e65 100644
--- a/include/cglm/mat2.h
+++ b/include/cglm/mat2.h
@@ -181,8 +181,10 @@ glm_mat2_mul(mat2 m1, mat2 m2, mat2 dest) {
 CGLM_INLINE
 void
 glm_mat2_mulv(mat2 m, vec2 v, vec2 dest) {
-  dest[0] = m[0][0] * v[0] + m[1][0] * v[1];
-  dest[1] = m[0][1] * v[0] + m[1][1] * v[1];
+  vec2 res;
+  res[0] = m[0][0] * v[0] + m[1][0] * v[1];
+  res[1] = m[0][1] * v[0] + m[1][1] * v[1];
+  glm_vec2_copy(res, dest);
 }
 
 /*!
@@ -199,10 +201,13 @@ glm_mat2_transpose_to(mat2 mat, mat2 dest) {
 #elif defined( __SSE__ ) || defined( __SSE2__ )
   glm_mat2_transp_sse2(mat, dest);
 #else
+  float t;
+
   dest[0][0] = mat[0][0];
-  dest[0][1] = mat[1][0];
-  dest[1][0] = mat[0][1];
   dest[1][1] = mat[1][1];
+
+  /* dest may be mat */
+  t = mat[1][0]; dest[1][0] = mat[0][1]; dest[0][1] = t;
 #endif
 }
 
diff --git a/include/cglm/mat3.h b/include/cglm/mat3.h
index 10b373e..060e4b1 100644
--- a/include/cglm/mat3.h
+++ b/include/cglm/mat3.h
@@ -190,15 +190,16 @@ glm_mat3_mul(mat3 m1, mat3 m2, mat3 dest) {
 CGLM_INLINE
 void
 glm_mat3_transpose_to(mat3 m, mat3 dest) {
+  float t;
+
+  /* swap pairwise, dest may be m */
   dest[0][0] = m[0][0];
-  dest[0][1] = m[1][0];
-  dest[0][2] = m[2][0];
-  dest[1][0] = m[0][1];
   dest[1][1] = m[1][1];
-  dest[1][2] = m[2][1];
-  dest[2][0] = m[0][2];
-  dest[2][1] = m[1][2];
   dest[2][2] = m[2][2];
+
+  t = m[1][0]; dest[1][0] = m[0][1]; dest[0][1] = t;
+  t = m[2][0]; dest[2][0] = m[0][2]; dest[0][2] = t;
+  t = m[2][1]; dest[2][1] = m[1][2]; dest[1][2] = t;
 }
 
 /*!
diff --git a/include/cglm/mat4.h b/include/cglm/mat4.h
index c3fe7fd..45558ec 100644
--- a/include/cglm/mat4.h
+++ b/include/cglm/mat4.h
@@ -528,14 +528,18 @@ glm_mat4_transpose_to(mat4 m, mat4 dest) {
 #elif defined(CGLM_NEON_FP)
   glm_mat4_transp_neon(m, dest);
 #else
-  dest[0][0] = m[0][0]; dest[1][0] = m[0][1];
-  dest[0][1] = m[1][0]; dest[1][1] = m[1][1];
-  dest[0][2] = m[2][0]; dest[1][2] = m[2][1];
-  dest[0][3] = m[3][0]; dest[1][3] = m[3][1];
-  dest[2][0] = m[0][2]; dest[3][0] = m[0][3];
-  dest[2][1] = m[1][2]; dest[3][1] = m[1][3];
-  dest[2][2] = m[2][2]; dest[3][2] = m[2][3];
-  dest[2][3] = m[3][2]; dest[3][3] = m[3][3];
+  float t;
+
+  /* swap pairwise, dest may be m */
+  dest[0][0] = m[0][0]; dest[1][1] = m[1][1];
+  dest[2][2] = m[2][2]; dest[3][3] = m[3][3];
+
+  t = m[1][0]; dest[1][0] = m[0][1]; dest[0][1] = t;
+  t = m[2][0]; dest[2][0] = m[0][2]; dest[0][2] = t;
+  t = m[3][0]; dest[3][0] = m[0][3]; dest[0][3] = t;
+  t = m[2][1]; dest[2][1] = m[1][2]; dest[1][2] = t;
+  t = m[3][1]; dest[3][1] = m[1][3]; dest[1][3] = t;
+  t = m[3][2]; dest[3][2] = m[2][3]; dest[2][3] = t;
 #endif
 }
 
-- 
2.43.0


From 2a41564597dcaea0309a52d1342a5fd66c9152ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:59 +0000
Subject: [PATCH 21/25] fix: scalar glm_quat_mul read components already
 overwritten when dest is an operand

---
 include/cglm/quat.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/cglm/quat.h b/include/cglm/quat.h
index cb2ba69..8581cef 100644
--- a/include/cglm/quat.h
+++ b/include/cglm/quat.h
@@ -466,10 +466,12 @@ glm_quat_mul(versor p, versor q, versor dest) {
 #elif defined(CGLM_NEON_FP)
   glm_quat_mul_neon(p, q, dest);
 #else
-  dest[0] = p[3] * q[0] + p[0] * q[3] + p[1] * q[2] - p[2] * q[1];
-  dest[1] = p[3] * q[1] - p[0] * q[2] + p[1] * q[3] + p[2] * q[0];
-  dest[2] = p[3] * q[2] + p[0] * q[1] - p[1] * q[0] + p[2] * q[3];
-  dest[3] = p[3] * q[3] - p[0] * q[0] - p[1] * q[1] - p[2] * q[2];
+  versor r;
+  r[0] = p[3] * q[0] + p[0] * q[3] + p[1] * q[2] - p[2] * q[1];
+  r[1] = p[3] * q[1] - p[0] * q[2] + p[1] * q[3] + p[2] * q[0];
+  r[2] = p[3] * q[2] + p[0] * q[1] - p[1] * q[0] + p[2] * q[3];
+  r[3] = p[3] * q[3] - p[0] * q[0] - p[1] * q[1] - p[2] * q[2];
+  glm_quat_copy(r, dest);
 #endif
 }
 
-- 
2.43.0


From 1472f7eeb5e097262a74fc4f3ee794c1a40b2bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:59 +0000
Subject: [PATCH 22/25] fix: vector reflect and refract gave wrong results when
 dest is the vector or normal

---
 include/cglm/vec2.h |  4 +++-
 include/cglm/vec3.h |  4 +++-
 include/cglm/vec4.h | 11 ++++++++---
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/cglm/vec2.h b/include/cglm/vec2.h
index 655fb4b..dade843 100644
--- a/include/cglm/vec2.h
+++ b/include/cglm/vec2.h
@@ -779,6 +779,7 @@ glm_vec2_reflect(vec2 v, vec2 n, vec2 dest) {
 CGLM_INLINE
 bool
 glm_vec2_refract(vec2 v, vec2 n, float eta, vec2 dest) {
+  vec2  nk;
   float ndi, eni, k;
 
   ndi = glm_vec2_dot(n, v);
@@ -790,8 +791,9 @@ glm_vec2_refract(vec2 v, vec2 n, float eta, vec2 dest) {
     return false;
   }
 
+  glm_vec2_scale(n, eni + sqrtf(k), nk);
   glm_vec2_scale(v, eta, dest);
-  glm_vec2_mulsubs(n, eni + sqrtf(k), dest);
+  glm_vec2_sub(dest, nk, dest);
   return true;
 }
 
diff --git a/include/cglm/vec3.h b/include/cglm/vec3.h
index 1350818..e47c689 100644
--- a/include/cglm/vec3.h
+++ b/include/cglm/vec3.h
@@ -1245,6 +1245,7 @@ glm_vec3_reflect(vec3 v, vec3 n, vec3 dest) {
 CGLM_INLINE
 bool
 glm_vec3_refract(vec3 v, vec3 n, float eta, vec3 dest) {
+  vec3  nk;
   float ndi, eni, k;
 
   ndi = glm_vec3_dot(n, v);
@@ -1256,8 +1257,9 @@ glm_vec3_refract(vec3 v, vec3 n, float eta, vec3 dest) {
     return false;
   }
 
+  glm_vec3_scale(n, eni + sqrtf(k), nk);
   glm_vec3_scale(v, eta, dest);
-  glm_vec3_mulsubs(n, eni + sqrtf(k), dest);
+  glm_vec3_sub(dest, nk, dest);
   return true;
 }
 
diff --git a/include/cglm/vec4.h b/include/cglm/vec4.h
index 41b7891..67294fa 100644
--- a/include/cglm/vec4.h
+++ b/include/cglm/vec4.h
@@ -1299,13 +1299,16 @@ glm_vec4_make(const float * __restrict src, vec4 dest) {
 CGLM_INLINE
 void
 glm_vec4_reflect(vec4 v, vec4 n, vec4 dest) {
-  vec4 temp;
+  vec4  temp;
+  float w;
+
+  w = v[3];
 
   /* TODO: direct simd touch */
   glm_vec4_scale(n, 2.0f * glm_vec4_dot(v, n), temp);
   glm_vec4_sub(v, temp, dest);
 
-  dest[3] = v[3];
+  dest[3] = w;
 }
 
 /*!
@@ -1329,6 +1332,7 @@ glm_vec4_reflect(vec4 v, vec4 n, vec4 dest) {
 CGLM_INLINE
 bool
 glm_vec4_refract(vec4 v, vec4 n, float eta, vec4 dest) {
+  vec4  nk;
   float ndi, eni, k;
 
   ndi = glm_vec4_dot(n, v);
@@ -1340,8 +1344,9 @@ glm_vec4_refract(vec4 v, vec4 n, float eta, vec4 dest) {
     return false;
   }
 
+  glm_vec4_scale(n, eni + sqrtf(k), nk);
   glm_vec4_scale(v, eta, dest);
-  glm_vec4_mulsubs(n, eni + sqrtf(k), dest);
+  glm_vec4_sub(dest, nk, dest);
   return true;
 }
 
-- 
2.43.0


From 76dba7355a6a04de8cffb5ef4a02aa788d531819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:59 +0000
Subject: [PATCH 23/25] fix: aabb crop_until ignored the clamp box when dest is
 the clamp box

---
 include/cglm/aabb2d.h | 6 ++++--
 include/cglm/box.h    | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/cglm/aabb2d.h b/include/cglm/aabb2d.h
index 03c6773..1a2bdf7 100644
--- a/include/cglm/aabb2d.h
+++ b/include/cglm/aabb2d.h
@@ -131,8 +131,10 @@ glm_aabb2d_crop_until(vec2 aabb[2],
                       vec2 cropAabb[2],
                       vec2 clampAabb[2],
                       vec2 dest[2]) {
-  glm_aabb2d_crop(aabb, cropAabb, dest);
-  glm_aabb2d_merge(clampAabb, dest, dest);
+  vec2 cropped[2];
+
+  glm_aabb2d_crop(aabb, cropAabb, cropped);
+  glm_aabb2d_merge(clampAabb, cropped, dest);
 }
 
 /*!
diff --git a/include/cglm/box.h b/include/cglm/box.h
index a56909b..00d26c4 100644
--- a/include/cglm/box.h
+++ b/include/cglm/box.h
@@ -113,8 +113,10 @@ glm_aabb_crop_until(vec3 box[2],
                     vec3 cropBox[2],
                     vec3 clampBox[2],
                     vec3 dest[2]) {
-  glm_aabb_crop(box, cropBox, dest);
-  glm_aabb_merge(clampBox, dest, dest);
+  vec3 cropped[2];
+
+  glm_aabb_crop(box, cropBox, cropped);
+  glm_aabb_merge(clampBox, cropped, dest);
 }
 
 /*!
-- 
2.43.0


From 55c416d3e3dc99b1bca5650db7a2c8d25decc93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:02 +0000
Subject: [PATCH 24/25] fix: glms_frustum_corners_at wrote eight corners into
 an array of four

---
 include/cglm/struct/frustum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/struct/frustum.h b/include/cglm/struct/frustum.h
index 81b5b7b..4b043d9 100644
--- a/include/cglm/struct/frustum.h
+++ b/include/cglm/struct/frustum.h
@@ -149,7 +149,7 @@ glms_frustum_corners_at(vec4s corners[8],
 
   glms_vec4_(unpack)(rawCorners, corners, 8);
   glm_frustum_corners_at(rawCorners, splitDist, farDist, rawPlaneCorners);
-  glms_vec4_(pack)(planeCorners, rawPlaneCorners, 8);
+  glms_vec4_(pack)(planeCorners, rawPlaneCorners, 4);
 }
 
 #endif /* cglms_frustums_h */
-- 
2.43.0


From 11238d2a263065cac221aa81a84b1dd899890171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:53 +0000
Subject: [PATCH 25/25] fix: slerp_longest between nearly equal rotations
 passed through the zero quaternion

---
 include/cglm/quat.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cglm/quat.h b/include/cglm/quat.h
index 8581cef..edb0526 100644
--- a/include/cglm/quat.h
+++ b/include/cglm/quat.h
@@ -778,7 +778,8 @@ glm_quat_slerp_longest(versor from, versor to, float t, versor dest) {
 
   /* LERP to avoid zero division */
   if (fabsf(sinTheta) < 0.001f) {
-    glm_quat_lerp(from, to, t, dest);
+    glm_vec4_negate(q1);
+    glm_quat_lerp(q1, to, t, dest);
     return;
   }
 
-- 
2.43.0

