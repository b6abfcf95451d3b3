/* C35: compiled as C and as C++, once per configuration: sizes, constants, macros, defaults selected by the configuration */
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <stdio.h>
#include <math.h>
#include <float.h>
#include <stdbool.h>
#include <string.h>
#ifdef ORDER_SC
#include <cglm/struct.h>
#include <cglm/call.h>
#include <cglm/cglm.h>
#elif defined(ORDER_CS)
#include <cglm/call.h>
#include <cglm/struct.h>
#else
#include <cglm/cglm.h>
#include <cglm/struct.h>
#include <cglm/call.h>
#endif
#ifndef CGLM_CLIPSPACE_INCLUDE_ALL
#include <cglm/clipspace/persp_lh_no.h>
#include <cglm/clipspace/persp_lh_zo.h>
#include <cglm/clipspace/persp_rh_no.h>
#include <cglm/clipspace/persp_rh_zo.h>
#include <cglm/clipspace/ortho_lh_no.h>
#include <cglm/clipspace/ortho_lh_zo.h>
#include <cglm/clipspace/ortho_rh_no.h>
#include <cglm/clipspace/ortho_rh_zo.h>
#include <cglm/clipspace/view_lh_no.h>
#include <cglm/clipspace/view_lh_zo.h>
#include <cglm/clipspace/view_rh_no.h>
#include <cglm/clipspace/view_rh_zo.h>
#include <cglm/clipspace/project_no.h>
#include <cglm/clipspace/project_zo.h>
#endif
static long states, calls, checks, fails;
static void bad(const char *site, const char *msg) { if (++fails < 60) printf("FAIL %s %ld %s\n", site, states, msg); }
#define CK(site, cond) do { ++checks; if (!(cond)) bad(site, #cond); } while (0)
#ifdef __cplusplus
#  define AL_OF(T) alignof(T)
#else
#  define AL_OF(T) __alignof__(T)
#endif
#ifdef CGLM_ALL_UNALIGNED
#  define V4A 4
#else
#  define V4A 16
#endif
#ifdef __AVX__
#  define M4A 32
#else
#  define M4A 16
#endif
#define SZ(T, s, a) do { ++states; CK("size_" #T, sizeof(T) == (s)); CK("align_" #T, AL_OF(T) == (a)); } while (0)
static void sizes(void) {
  SZ(vec2, 8, 4); SZ(vec3, 12, 4); SZ(vec4, 16, V4A); SZ(versor, 16, V4A); SZ(ivec2, 8, 4); SZ(ivec3, 12, 4); SZ(ivec4, 16, 4);
  SZ(mat2, 16, V4A); SZ(mat3, 36, 4); SZ(mat4, 64, M4A); SZ(mat2x3, 24, 4); SZ(mat2x4, 32, V4A); SZ(mat3x2, 24, 4); SZ(mat3x4, 48, V4A); SZ(mat4x2, 32, 4); SZ(mat4x3, 48, 4);
  SZ(vec2s, 8, 4); SZ(vec3s, 12, 4); SZ(vec4s, 16, V4A); SZ(versors, 16, V4A); SZ(ivec2s, 8, 4); SZ(ivec3s, 12, 4); SZ(ivec4s, 16, 4);
  SZ(mat2s, 16, V4A); SZ(mat3s, 36, 4); SZ(mat4s, 64, M4A); SZ(mat2x3s, 24, 4); SZ(mat2x4s, 32, V4A); SZ(mat3x2s, 24, 4); SZ(mat3x4s, 48, V4A); SZ(mat4x2s, 32, 4); SZ(mat4x3s, 48, 4);
}
static void constant(const char *n, double d, float f, long double want) { ++states; ++checks; if (d != (double)want) bad(n, "wrong double constant"); ++checks; if (f != (float)(double)want) bad(n, "wrong float constant"); }
static void constants(void) {
  long double pi = acosl(-1.0L), e = expl(1.0L);
  constant("GLM_E", GLM_E, GLM_Ef, e); constant("GLM_LOG2E", GLM_LOG2E, GLM_LOG2Ef, 1 / logl(2)); constant("GLM_LOG10E", GLM_LOG10E, GLM_LOG10Ef, 1 / logl(10)); constant("GLM_LN2", GLM_LN2, GLM_LN2f, logl(2)); constant("GLM_LN10", GLM_LN10, GLM_LN10f, logl(10));
  constant("GLM_PI", GLM_PI, GLM_PIf, pi); constant("GLM_PI_2", GLM_PI_2, GLM_PI_2f, pi / 2); constant("GLM_PI_4", GLM_PI_4, GLM_PI_4f, pi / 4); constant("GLM_1_PI", GLM_1_PI, GLM_1_PIf, 1 / pi); constant("GLM_2_PI", GLM_2_PI, GLM_2_PIf, 2 / pi);
  constant("GLM_TAU", GLM_TAU, GLM_TAUf, 2 * pi); constant("GLM_TAU_2", GLM_TAU_2, GLM_TAU_2f, pi); constant("GLM_TAU_4", GLM_TAU_4, GLM_TAU_4f, pi / 2); constant("GLM_1_TAU", GLM_1_TAU, GLM_1_TAUf, 1 / (2 * pi)); constant("GLM_2_TAU", GLM_2_TAU, GLM_2_TAUf, 1 / pi);
  constant("GLM_2_SQRTPI", GLM_2_SQRTPI, GLM_2_SQRTPIf, 2 / sqrtl(pi)); constant("GLM_SQRTTAU", GLM_SQRTTAU, GLM_2_SQRTTAUf, sqrtl(2 * pi)); constant("GLM_SQRT2", GLM_SQRT2, GLM_SQRT2f, sqrtl(2)); constant("GLM_SQRT1_2", GLM_SQRT1_2, GLM_SQRT1_2f, sqrtl(0.5L));
  CK("CGLM_PI", (float)CGLM_PI == (float)pi && (float)CGLM_PI_2 == (float)(pi / 2) && (float)CGLM_PI_4 == (float)(pi / 4));
#ifdef CGLM_USE_DEFAULT_EPSILON
  CK("GLM_FLT_EPSILON", GLM_FLT_EPSILON == FLT_EPSILON);
#elif defined(MY_EPS)
  CK("GLM_FLT_EPSILON", GLM_FLT_EPSILON == 0.25f); { float t = 1.2f; CK("GLM_FLT_EPSILON", glm_eq(1.0f, t) && !glm_eq(1.0f, 1.3f)); }
#else
  CK("GLM_FLT_EPSILON", GLM_FLT_EPSILON == 1e-5f);
#endif
  CK("frustum_index", GLM_LBN == 0 && GLM_LTN == 1 && GLM_RTN == 2 && GLM_RBN == 3 && GLM_LBF == 4 && GLM_LTF == 5 && GLM_RTF == 6 && GLM_RBF == 7 && GLM_LEFT == 0 && GLM_RIGHT == 1 && GLM_BOTTOM == 2 && GLM_TOP == 3 && GLM_NEAR == 4 && GLM_FAR == 5);
}
static void eqarr(const char *site, const float *g, const float *w, int n) { ++states; ++checks; for (int i = 0; i < n; i++) if (!(g[i] == w[i]) && !(isnan(g[i]) && isnan(w[i]))) { char b[160]; snprintf(b, sizeof b, "element %d is %g, expected %g", i, g[i], w[i]); bad(site, b); return; } }
static void eqint(const char *site, const int *g, const int *w, int n) { ++states; ++checks; for (int i = 0; i < n; i++) if (g[i] != w[i]) { bad(site, "wrong element"); return; } }
static const float Z16[16] = {0}, O4[4] = {1, 1, 1, 1}; static const int IZ[4] = {0}, IO[4] = {1, 1, 1, 1};
static const float ID4[16] = {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}, ID3[9] = {1, 0, 0, 0, 1, 0, 0, 0, 1}, ID2[4] = {1, 0, 0, 1}, IDQ[4] = {0, 0, 0, 1};
#define INITCK(T, S, NAME, n, want) do { CGLM_ALIGN_MAT T t_ = NAME##_INIT; eqarr(#NAME "_INIT", (float *)t_, want, n); } while (0)
#define INITSK(S, NAME, n, want) do { CGLM_ALIGN_MAT S s_ = NAME##_INIT; eqarr(#NAME "_INIT", (float *)s_.raw, want, n); } while (0)
static void inits(void) {
  static const float black[4] = {0, 0, 0, 1}, bez[16] = {-1, 3, -3, 1, 3, -6, 3, 0, -3, 3, 0, 0, 1, 0, 0, 0}, her[16] = {2, -3, 0, 1, -2, 3, 0, 0, 1, -2, 1, 0, 1, -1, 0, 0};
  INITCK(mat4, mat4s, GLM_MAT4_IDENTITY, 16, ID4); INITCK(mat4, mat4s, GLM_MAT4_ZERO, 16, Z16); INITCK(mat3, mat3s, GLM_MAT3_IDENTITY, 9, ID3); INITCK(mat3, mat3s, GLM_MAT3_ZERO, 9, Z16); INITCK(mat2, mat2s, GLM_MAT2_IDENTITY, 4, ID2); INITCK(mat2, mat2s, GLM_MAT2_ZERO, 4, Z16);
  INITCK(mat2x3, 0, GLM_MAT2X3_ZERO, 6, Z16); INITCK(mat2x4, 0, GLM_MAT2X4_ZERO, 8, Z16); INITCK(mat3x2, 0, GLM_MAT3X2_ZERO, 6, Z16); INITCK(mat3x4, 0, GLM_MAT3X4_ZERO, 12, Z16); INITCK(mat4x2, 0, GLM_MAT4X2_ZERO, 8, Z16); INITCK(mat4x3, 0, GLM_MAT4X3_ZERO, 12, Z16);
  INITCK(vec4, 0, GLM_VEC4_ONE, 4, O4); INITCK(vec4, 0, GLM_VEC4_ZERO, 4, Z16); INITCK(vec4, 0, GLM_VEC4_BLACK, 4, black); INITCK(vec3, 0, GLM_VEC3_ONE, 3, O4); INITCK(vec3, 0, GLM_VEC3_ZERO, 3, Z16); INITCK(vec2, 0, GLM_VEC2_ONE, 2, O4); INITCK(vec2, 0, GLM_VEC2_ZERO, 2, Z16); INITCK(versor, 0, GLM_QUAT_IDENTITY, 4, IDQ);
  INITCK(mat4, 0, GLM_BEZIER_MAT, 16, bez); INITCK(mat4, 0, GLM_HERMITE_MAT, 16, her);
  { ivec2 a = GLM_IVEC2_ONE_INIT, b = GLM_IVEC2_ZERO_INIT; ivec3 c = GLM_IVEC3_ONE_INIT, d = GLM_IVEC3_ZERO_INIT; ivec4 e = GLM_IVEC4_ONE_INIT, f = GLM_IVEC4_ZERO_INIT; eqint("GLM_IVEC2_ONE_INIT", a, IO, 2); eqint("GLM_IVEC2_ZERO_INIT", b, IZ, 2); eqint("GLM_IVEC3_ONE_INIT", c, IO, 3); eqint("GLM_IVEC3_ZERO_INIT", d, IZ, 3); eqint("GLM_IVEC4_ONE_INIT", e, IO, 4); eqint("GLM_IVEC4_ZERO_INIT", f, IZ, 4); }
  INITSK(mat4s, GLMS_MAT4_IDENTITY, 16, ID4); INITSK(mat4s, GLMS_MAT4_ZERO, 16, Z16); INITSK(mat3s, GLMS_MAT3_IDENTITY, 9, ID3); INITSK(mat3s, GLMS_MAT3_ZERO, 9, Z16); INITSK(mat2s, GLMS_MAT2_IDENTITY, 4, ID2); INITSK(mat2s, GLMS_MAT2_ZERO, 4, Z16);
  INITSK(mat2x3s, GLMS_MAT2X3_ZERO, 6, Z16); INITSK(mat2x4s, GLMS_MAT2X4_ZERO, 8, Z16); INITSK(mat3x2s, GLMS_MAT3X2_ZERO, 6, Z16); INITSK(mat3x4s, GLMS_MAT3X4_ZERO, 12, Z16); INITSK(mat4x2s, GLMS_MAT4X2_ZERO, 8, Z16); INITSK(mat4x3s, GLMS_MAT4X3_ZERO, 12, Z16);
  INITSK(vec4s, GLMS_VEC4_ONE, 4, O4); INITSK(vec4s, GLMS_VEC4_ZERO, 4, Z16); INITSK(vec4s, GLMS_VEC4_BLACK, 4, black); INITSK(vec3s, GLMS_VEC3_ONE, 3, O4); INITSK(vec3s, GLMS_VEC3_ZERO, 3, Z16); INITSK(vec2s, GLMS_VEC2_ONE, 2, O4); INITSK(vec2s, GLMS_VEC2_ZERO, 2, Z16); INITSK(versors, GLMS_QUAT_IDENTITY, 4, IDQ);
  { ivec2s a = GLMS_IVEC2_ONE_INIT, b = GLMS_IVEC2_ZERO_INIT; ivec3s c = GLMS_IVEC3_ONE_INIT, d = GLMS_IVEC3_ZERO_INIT; ivec4s e = GLMS_IVEC4_ONE_INIT, f = GLMS_IVEC4_ZERO_INIT; eqint("GLMS_IVEC2_ONE_INIT", a.raw, IO, 2); eqint("GLMS_IVEC2_ZERO_INIT", b.raw, IZ, 2); eqint("GLMS_IVEC3_ONE_INIT", c.raw, IO, 3); eqint("GLMS_IVEC3_ZERO_INIT", d.raw, IZ, 3); eqint("GLMS_IVEC4_ONE_INIT", e.raw, IO, 4); eqint("GLMS_IVEC4_ZERO_INIT", f.raw, IZ, 4); }
  { vec4 c[8] = {GLM_CSCOORD_LBN, GLM_CSCOORD_LTN, GLM_CSCOORD_RTN, GLM_CSCOORD_RBN, GLM_CSCOORD_LBF, GLM_CSCOORD_LTF, GLM_CSCOORD_RTF, GLM_CSCOORD_RBF}; static const float w[8][3] = {{-1, -1, -1}, {-1, 1, -1}, {1, 1, -1}, {1, -1, -1}, {-1, -1, 1}, {-1, 1, 1}, {1, 1, 1}, {1, -1, 1}};
#ifdef CGLM_FORCE_DEPTH_ZERO_TO_ONE
    const float zn = -1; /* the clip-space corner table is the [-1,1] cube in every configuration */
#else
    const float zn = -1;
#endif
    for (int i = 0; i < 8; i++) { float q[4] = {w[i][0], w[i][1], i < 4 ? zn : 1, 1}; eqarr("GLM_CSCOORD", c[i], q, 4); } }
#ifndef __cplusplus
  static const float y3[3] = {0, 1, 0}, z3[3] = {0, 0, 1}, x3[3] = {1, 0, 0}, f3[3] = {0, 0, -1};
  eqarr("GLM_MAT4_IDENTITY", (float *)GLM_MAT4_IDENTITY, ID4, 16); eqarr("GLM_MAT4_ZERO", (float *)GLM_MAT4_ZERO, Z16, 16); eqarr("GLM_MAT3_IDENTITY", (float *)GLM_MAT3_IDENTITY, ID3, 9); eqarr("GLM_MAT3_ZERO", (float *)GLM_MAT3_ZERO, Z16, 9); eqarr("GLM_MAT2_IDENTITY", (float *)GLM_MAT2_IDENTITY, ID2, 4); eqarr("GLM_MAT2_ZERO", (float *)GLM_MAT2_ZERO, Z16, 4);
  eqarr("GLM_VEC4_ONE", GLM_VEC4_ONE, O4, 4); eqarr("GLM_VEC4_ZERO", GLM_VEC4_ZERO, Z16, 4); eqarr("GLM_VEC4_BLACK", GLM_VEC4_BLACK, black, 4); eqarr("GLM_VEC3_ONE", GLM_VEC3_ONE, O4, 3); eqarr("GLM_VEC3_ZERO", GLM_VEC3_ZERO, Z16, 3); eqarr("GLM_VEC2_ONE", GLM_VEC2_ONE, O4, 2); eqarr("GLM_VEC2_ZERO", GLM_VEC2_ZERO, Z16, 2); eqarr("GLM_QUAT_IDENTITY", GLM_QUAT_IDENTITY, IDQ, 4);
  eqarr("GLM_YUP", GLM_YUP, y3, 3); eqarr("GLM_ZUP", GLM_ZUP, z3, 3); eqarr("GLM_XUP", GLM_XUP, x3, 3); eqarr("GLM_FORWARD", GLM_FORWARD, f3, 3); eqarr("GLM_BEZIER_MAT", (float *)GLM_BEZIER_MAT, bez, 16); eqarr("GLM_HERMITE_MAT", (float *)GLM_HERMITE_MAT, her, 16);
  eqint("GLM_IVEC2_ONE", GLM_IVEC2_ONE, IO, 2); eqint("GLM_IVEC2_ZERO", GLM_IVEC2_ZERO, IZ, 2); eqint("GLM_IVEC3_ONE", GLM_IVEC3_ONE, IO, 3); eqint("GLM_IVEC3_ZERO", GLM_IVEC3_ZERO, IZ, 3); eqint("GLM_IVEC4_ONE", GLM_IVEC4_ONE, IO, 4); eqint("GLM_IVEC4_ZERO", GLM_IVEC4_ZERO, IZ, 4);
#define SL(N, n, w) do { __typeof__(N) s_ = N; eqarr(#N, (float *)s_.raw, w, n); } while (0)
#define SI(N, n, w) do { __typeof__(N) s_ = N; eqint(#N, s_.raw, w, n); } while (0)
  SL(GLMS_MAT4_IDENTITY, 16, ID4); SL(GLMS_MAT4_ZERO, 16, Z16); SL(GLMS_MAT3_IDENTITY, 9, ID3); SL(GLMS_MAT3_ZERO, 9, Z16); SL(GLMS_MAT2_IDENTITY, 4, ID2); SL(GLMS_MAT2_ZERO, 4, Z16); SL(GLMS_VEC4_ONE, 4, O4); SL(GLMS_VEC4_ZERO, 4, Z16); SL(GLMS_VEC4_BLACK, 4, black); SL(GLMS_VEC3_ONE, 3, O4); SL(GLMS_VEC3_ZERO, 3, Z16); SL(GLMS_VEC2_ONE, 2, O4); SL(GLMS_VEC2_ZERO, 2, Z16); SL(GLMS_QUAT_IDENTITY, 4, IDQ); SL(GLMS_YUP, 3, y3); SL(GLMS_ZUP, 3, z3); SL(GLMS_XUP, 3, x3);
  SL(GLMS_MAT2X3_ZERO, 6, Z16); SL(GLMS_MAT2X4_ZERO, 8, Z16); SL(GLMS_MAT3X2_ZERO, 6, Z16); SL(GLMS_MAT3X4_ZERO, 12, Z16); SL(GLMS_MAT4X2_ZERO, 8, Z16); SL(GLMS_MAT4X3_ZERO, 12, Z16); SI(GLMS_IVEC2_ONE, 2, IO); SI(GLMS_IVEC2_ZERO, 2, IZ); SI(GLMS_IVEC3_ONE, 3, IO); SI(GLMS_IVEC3_ZERO, 3, IZ); SI(GLMS_IVEC4_ONE, 4, IO); SI(GLMS_IVEC4_ZERO, 4, IZ);
#endif
}
static float f3(float x) { return x; }
#define POIS(g, n) do { for (int q_ = 0; q_ < (n); q_++) (g)[q_] = 77.25f + q_; } while (0)
#define EQV(name, g, w, n) do { eqarr(name, g, w, n); POIS(g, 4); } while (0)
static void macros(void) {
  static const float A[] = {0, -0.0f, 1, -1, 2.5f, -3.75f, 0.1f, 1e-7f, 1e20f, INFINITY}; enum { N = sizeof A / sizeof *A };
  for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) for (int k = 0; k < N; k++) { vec4 a, b, g, w; a[0] = A[i]; a[1] = A[j]; a[2] = A[k]; a[3] = A[(i + j + k) % N]; b[0] = A[k]; b[1] = A[i]; b[2] = A[j]; b[3] = A[(i + 2 * j) % N]; calls += 14; vec4 a0, b0; memcpy(a0, a, 16); memcpy(b0, b, 16); POIS(g, 4);
    glm_vec3_dup(a, g); EQV("glm_vec3_dup", g, a, 3); glm_vec4_dup(a, g); EQV("glm_vec4_dup", g, a, 4); glm_vec4_dup3(a, g); EQV("glm_vec4_dup3", g, a, 3);
    for (int q = 0; q < 4; q++) w[q] = -a[q]; memcpy(g, a, 16); glm_vec3_flipsign(g); EQV("glm_vec3_flipsign", g, w, 3); memcpy(g, a, 16); glm_vec4_flipsign(g); EQV("glm_vec4_flipsign", g, w, 4); memcpy(g, a, 16); glm_vec3_inv(g); EQV("glm_vec3_inv", g, w, 3); memcpy(g, a, 16); glm_vec4_inv(g); EQV("glm_vec4_inv", g, w, 4);
    glm_vec3_flipsign_to(a, g); EQV("glm_vec3_flipsign_to", g, w, 3); glm_vec4_flipsign_to(a, g); EQV("glm_vec4_flipsign_to", g, w, 4); glm_vec3_inv_to(a, g); EQV("glm_vec3_inv_to", g, w, 3); glm_vec4_inv_to(a, g); EQV("glm_vec4_inv_to", g, w, 4);
    for (int q = 0; q < 4; q++) w[q] = a[q] * b[q]; glm_vec3_mulv(a, b, g); EQV("glm_vec3_mulv", g, w, 3); glm_vec4_mulv(a, b, g); EQV("glm_vec4_mulv", g, w, 4);
#ifdef LINKED
    for (int q = 0; q < 4; q++) w[q] = a[q] * b[q];
    glmc_vec3_mulv(a, b, g); EQV("glmc_vec3_mulv", g, w, 3); glmc_vec4_mulv(a, b, g); EQV("glmc_vec4_mulv", g, w, 4);
    glmc_vec_dup(a, g); EQV("glmc_vec_dup", g, a, 3); glmc_vec4_dup(a, g); EQV("glmc_vec4_dup", g, a, 4); glmc_vec4_dup3(a, g); EQV("glmc_vec4_dup3", g, a, 3);
    for (int q = 0; q < 4; q++) w[q] = -a[q]; memcpy(g, a, 16); glmc_vec3_flipsign(g); EQV("glmc_vec3_flipsign", g, w, 3); memcpy(g, a, 16); glmc_vec4_flipsign(g); EQV("glmc_vec4_flipsign", g, w, 4); memcpy(g, a, 16); glmc_vec3_inv(g); EQV("glmc_vec3_inv", g, w, 3); memcpy(g, a, 16); glmc_vec4_inv(g); EQV("glmc_vec4_inv", g, w, 4);
    glmc_vec3_flipsign_to(a, g); EQV("glmc_vec3_flipsign_to", g, w, 3); glmc_vec4_flipsign_to(a, g); EQV("glmc_vec4_flipsign_to", g, w, 4); glmc_vec3_inv_to(a, g); EQV("glmc_vec3_inv_to", g, w, 3); glmc_vec4_inv_to(a, g); EQV("glmc_vec4_inv_to", g, w, 4);
    for (int q = 0; q < 4; q++) w[q] = b[q] < A[i] ? 0.0f : 1.0f; glmc_vec3_step_uni(A[i], b, g); EQV("glmc_vec3_step_uni", g, w, 3); glmc_vec4_step_uni(A[i], b, g); EQV("glmc_vec4_step_uni", g, w, 4);
#endif
#if !defined(OTHER_NAMES)
    { vec3s s; memcpy(&s, a, 12); s = glms_vec3_flipsign(s); for (int q = 0; q < 4; q++) g[q] = -a[q]; eqarr("glms_vec3_flipsign", s.raw, g, 3); }
#endif
    for (int q = 0; q < 4; q++) w[q] = b[q] < A[i] ? 0.0f : 1.0f; glm_vec3_step_uni(A[i], b, g); EQV("glm_vec3_step_uni", g, w, 3); glm_vec4_step_uni(A[i], b, g); EQV("glm_vec4_step_uni", g, w, 4);
#if !defined(OTHER_NAMES)
    { vec3s s; memcpy(&s, b, 12); s = glms_vec3_step_uni(A[i], s); eqarr("glms_vec3_step_uni", s.raw, w, 3); vec4s t; memcpy(&t, b, 16); t = glms_vec4_step_uni(A[i], t); eqarr("glms_vec4_step_uni", t.raw, w, 4); }
#endif
    CK("macro_inputs", !memcmp(a, a0, 16) && !memcmp(b, b0, 16));
    CK("GLM_MIN", GLM_MIN(k ? a[0] : a[1], j ? a[1] : a[2]) == ((k ? a[0] : a[1]) < (j ? a[1] : a[2]) ? (k ? a[0] : a[1]) : (j ? a[1] : a[2]))); CK("GLM_MAX", GLM_MAX(k ? a[0] : a[1], j ? a[1] : a[2]) == ((k ? a[0] : a[1]) > (j ? a[1] : a[2]) ? (k ? a[0] : a[1]) : (j ? a[1] : a[2])));
    CK("GLM_MIN", GLM_MIN(a[0], a[1]) == (a[0] < a[1] ? a[0] : a[1])); CK("GLM_MAX", GLM_MAX(a[0], a[1]) == (a[0] > a[1] ? a[0] : a[1])); CK("GLM_MIN", GLM_MIN(a[0] + 1, a[1] - 1) == fminf(a[0] + 1, a[1] - 1)); CK("GLM_MAX", 2 * GLM_MAX(f3(a[2]), 1) == (a[2] > 1 ? 2 * a[2] : 2)); }
  { mat4 m, g; mat3 n, h; for (int i = 0; i < 16; i++) ((float *)m)[i] = (float)(i * i - 3 * i + 1) + (i % 5 == 0 ? 20 : 0); for (int i = 0; i < 9; i++) ((float *)n)[i] = (float)i; glm_mat4_dup(m, g); eqarr("glm_mat4_dup", (float *)g, (float *)m, 16); POIS((float *)g, 16); glm_mat4_udup(m, g); eqarr("glm_mat4_udup", (float *)g, (float *)m, 16); glm_mat3_dup(n, h); eqarr("glm_mat3_dup", (float *)h, (float *)n, 9);
    mat4 w; glm_mat4_inv(m, w); POIS((float *)g, 16); glm_mat4_inv_precise(m, g); eqarr("glm_mat4_inv_precise", (float *)g, (float *)w, 16);
#ifdef LINKED
    POIS((float *)g, 16); glmc_mat4_inv(m, w); glmc_mat4_inv_precise(m, g); eqarr("glmc_mat4_inv_precise", (float *)g, (float *)w, 16);
    POIS((float *)g, 16); glmc_mat4_dup(m, g); eqarr("glmc_mat4_dup", (float *)g, (float *)m, 16); POIS((float *)g, 16); glmc_mat4_udup(m, g); eqarr("glmc_mat4_udup", (float *)g, (float *)m, 16); POIS((float *)h, 9); glmc_mat3_dup(n, h); eqarr("glmc_mat3_dup", (float *)h, (float *)n, 9); { vec2 bb[2] = {{1, 2}, {4, 6}}; CK("glmc_aabb2d_size", glmc_aabb2d_size(bb) == 5.0f); }
#endif
    vec2 bx[2] = {{1, 2}, {4, 6}}; CK("glm_aabb2d_size", glm_aabb2d_size(bx) == 5.0f); }
  { int z, y, x, w; for (z = 0; z < 4; z++) for (y = 0; y < 4; y++) for (x = 0; x < 4; x++) for (w = 0; w < 4; w++) { ++states; ++calls; CK("GLM_SHUFFLE4", GLM_SHUFFLE4(z, y, x, w) == z * 64 + y * 16 + x * 4 + w); CK("GLM_SHUFFLE3", GLM_SHUFFLE3(z, y, x) == z * 16 + y * 4 + x); CK("GLM_SHUFFLE2", GLM_SHUFFLE2(z, y) == z * 4 + y); CK("GLM_SHUFFLE4", GLM_SHUFFLE4(z & 1, y | 0, x ^ 0, w & 3) == (z & 1) * 64 + y * 16 + x * 4 + w);
    int c = (z ^ x) & 1; CK("GLM_SHUFFLE4", GLM_SHUFFLE4(c ? z : 3, y | x, c ? 1 : x, x == y) == (c ? z : 3) * 64 + (y | x) * 16 + (c ? 1 : x) * 4 + (x == y)); CK("GLM_SHUFFLE4", GLM_SHUFFLE4(z == y, c ? y : x, x & y, c ? w : z) == (z == y) * 64 + (c ? y : x) * 16 + (x & y) * 4 + (c ? w : z));
    CK("GLM_SHUFFLE3", GLM_SHUFFLE3(c ? z : 3, y | x, c ? 1 : x) == (c ? z : 3) * 16 + (y | x) * 4 + (c ? 1 : x)); CK("GLM_SHUFFLE3", GLM_SHUFFLE3(z & x, c ? y : 2, x ^ z) == (z & x) * 16 + (c ? y : 2) * 4 + (x ^ z)); CK("GLM_SHUFFLE2", GLM_SHUFFLE2(c ? z : 3, c ? 1 : x) == (c ? z : 3) * 4 + (c ? 1 : x)); CK("GLM_SHUFFLE2", 2 * GLM_SHUFFLE2(z & y, x | y) == 2 * ((z & y) * 4 + (x | y))); CK("GLM_SHUFFLE3", 2 * GLM_SHUFFLE3(z, y, x) + 1 == 2 * (z * 16 + y * 4 + x) + 1); } }
  { vec4 v = {10, 11, 12, 13}, g; int M4[] = {GLM_XXXX, GLM_YYYY, GLM_ZZZZ, GLM_WWWW, GLM_WZYX}; const float W4[5][4] = {{10, 10, 10, 10}, {11, 11, 11, 11}, {12, 12, 12, 12}, {13, 13, 13, 13}, {13, 12, 11, 10}}; for (int i = 0; i < 5; i++) { glm_vec4_swizzle(v, M4[i], g); eqarr("vec4_swizzle_mask", g, W4[i], 4); } int M3[] = {GLM_XXX, GLM_YYY, GLM_ZZZ, GLM_ZYX}; const float W3[4][3] = {{10, 10, 10}, {11, 11, 11}, {12, 12, 12}, {12, 11, 10}}; for (int i = 0; i < 4; i++) { glm_vec3_swizzle(v, M3[i], g); eqarr("vec3_swizzle_mask", g, W3[i], 3); } }
}
/* defaults selected by the configuration equal the explicitly named variants */
#ifdef CGLM_FORCE_LEFT_HANDED
#  ifdef CGLM_FORCE_DEPTH_ZERO_TO_ONE
#    define SUF(f) f##_lh_zo
#    define CC_WANT CGLM_CLIP_CONTROL_LH_ZO
#  else
#    define SUF(f) f##_lh_no
#    define CC_WANT CGLM_CLIP_CONTROL_LH_NO
#  endif
#else
#  ifdef CGLM_FORCE_DEPTH_ZERO_TO_ONE
#    define SUF(f) f##_rh_zo
#    define CC_WANT CGLM_CLIP_CONTROL_RH_ZO
#  else
#    define SUF(f) f##_rh_no
#    define CC_WANT CGLM_CLIP_CONTROL_RH_NO
#  endif
#endif
#ifdef CGLM_FORCE_DEPTH_ZERO_TO_ONE
#  define PSUF(f) f##_zo
#else
#  define PSUF(f) f##_no
#endif
#define CAM1(fn, ...) do { glm_##fn(__VA_ARGS__, g); SUF(glm_##fn)(__VA_ARGS__, w); ++calls; eqarr("default_" #fn, (float *)g, (float *)w, 16); } while (0)
static void defaults(void) {
  static const float F[] = {0.25f, 0.5f, 1, 3, 10}; mat4 g, w, p; vec3 bx[2];
  CK("clip_control", CGLM_CONFIG_CLIP_CONTROL == CC_WANT);
  CK("clip_bits", CGLM_CLIP_CONTROL_LH_BIT != CGLM_CLIP_CONTROL_RH_BIT && CGLM_CLIP_CONTROL_ZO_BIT != CGLM_CLIP_CONTROL_NO_BIT && CGLM_CLIP_CONTROL_LH_ZO == (CGLM_CLIP_CONTROL_LH_BIT | CGLM_CLIP_CONTROL_ZO_BIT) && CGLM_CLIP_CONTROL_LH_NO == (CGLM_CLIP_CONTROL_LH_BIT | CGLM_CLIP_CONTROL_NO_BIT) && CGLM_CLIP_CONTROL_RH_ZO == (CGLM_CLIP_CONTROL_RH_BIT | CGLM_CLIP_CONTROL_ZO_BIT) && CGLM_CLIP_CONTROL_RH_NO == (CGLM_CLIP_CONTROL_RH_BIT | CGLM_CLIP_CONTROL_NO_BIT));
  for (int a = 0; a < 5; a++) for (int b = 0; b < 5; b++) for (int c = 0; c < 5; c++) for (int d = 0; d < 5; d++) { float n = F[c], f = F[c] + F[d] * 7; bx[0][0] = -F[a]; bx[0][1] = -F[b]; bx[0][2] = -F[c]; bx[1][0] = F[b]; bx[1][1] = F[c]; bx[1][2] = F[d];
    CAM1(perspective, F[a] / 4, F[b], n, f); CAM1(frustum, -F[a], F[b], -F[b] / 2, F[a] * 2, n, f); CAM1(ortho, -F[a], F[b], -F[b] / 2, F[a] * 2, n, f); CAM1(perspective_default, F[b]); CAM1(ortho_default, F[b]); CAM1(ortho_default_s, F[b], F[c]); CAM1(ortho_aabb_pz, bx, F[a]); CAM1(ortho_aabb, bx); CAM1(ortho_aabb_p, bx, F[d]);
    vec3 e = {F[a], -F[b], F[c]}, t = {F[d], F[a] - 4, -F[b]}, up = {0.1f, 1, 0.2f}; CAM1(lookat, e, t, up); CAM1(look, e, t, up); CAM1(look_anyup, e, t);
    glm_perspective(F[a] / 4, F[b], n, f, p); { mat4 q; memcpy(q, p, 64); memcpy(g, p, 64); glm_perspective_resize(F[d], g); SUF(glm_perspective_resize)(F[d], q); eqarr("default_perspective_resize", (float *)g, (float *)q, 16); memcpy(g, p, 64); memcpy(q, p, 64); glm_persp_move_far(g, F[d]); SUF(glm_persp_move_far)(q, F[d]); eqarr("default_persp_move_far", (float *)g, (float *)q, 16); }
    float x1[8] = {0}, x2[8] = {0}; glm_persp_decomp(p, x1, x1 + 1, x1 + 2, x1 + 3, x1 + 4, x1 + 5); SUF(glm_persp_decomp)(p, x2, x2 + 1, x2 + 2, x2 + 3, x2 + 4, x2 + 5); eqarr("default_persp_decomp", x1, x2, 6); x1[0] = glm_persp_fovy(p); x1[1] = glm_persp_aspect(p); glm_persp_decomp_z(p, x1 + 2, x1 + 3); glm_persp_decomp_far(p, x1 + 4); glm_persp_decomp_near(p, x1 + 5); x2[0] = SUF(glm_persp_fovy)(p); x2[1] = SUF(glm_persp_aspect)(p); SUF(glm_persp_decomp_z)(p, x2 + 2, x2 + 3); SUF(glm_persp_decomp_far)(p, x2 + 4); SUF(glm_persp_decomp_near)(p, x2 + 5); eqarr("default_persp_decomp_z", x1, x2, 6);
    glm_persp_decompv(p, x1); SUF(glm_persp_decompv)(p, x2); eqarr("default_persp_decompv", x1, x2, 6); glm_persp_decomp_x(p, x1, x1 + 1); glm_persp_decomp_y(p, x1 + 2, x1 + 3); SUF(glm_persp_decomp_x)(p, x2, x2 + 1); SUF(glm_persp_decomp_y)(p, x2 + 2, x2 + 3); eqarr("default_persp_decomp_xy", x1, x2, 4); { vec4 s1, s2; glm_persp_sizes(p, F[d], s1); SUF(glm_persp_sizes)(p, F[d], s2); eqarr("default_persp_sizes", s1, s2, 4); }
    { vec4 vp = {0, 0, 640, 480}; vec3 o1, o2; glm_project(e, p, vp, o1); PSUF(glm_project)(e, p, vp, o2); eqarr("default_project", o1, o2, 3); glm_mat4_inv(p, g); glm_unprojecti(t, g, vp, o1); PSUF(glm_unprojecti)(t, g, vp, o2); eqarr("default_unprojecti", o1, o2, 3); x1[0] = glm_project_z(e, p); x2[0] = PSUF(glm_project_z)(e, p); eqarr("default_project_z", x1, x2, 1); }
    (void)w; calls += 20; }
}
static void anon(void) {
#if CGLM_USE_ANONYMOUS_STRUCT
#  ifdef WANT_NO_ANON
  bad("anonymous", "anonymous structs are on although switched off");
#  endif
  vec4s v; vec3s t; vec2s u; mat4s m; mat3s k; mat2s l; versors q; ivec4s iv; for (int i = 0; i < 4; i++) { v.raw[i] = (float)i + 1; q.raw[i] = (float)i + 5; iv.raw[i] = i + 7; } memcpy(&t, &v, 12); memcpy(&u, &v, 8); for (int i = 0; i < 16; i++) m.raw[i / 4][i % 4] = (float)i; for (int i = 0; i < 9; i++) k.raw[i / 3][i % 3] = (float)i; for (int i = 0; i < 4; i++) l.raw[i / 2][i % 2] = (float)i; states += 8;
  CK("vec4s_fields", v.x == 1 && v.y == 2 && v.z == 3 && v.w == 4 && v.r == 1 && v.g == 2 && v.b == 3 && v.a == 4); CK("vec3s_fields", t.x == 1 && t.y == 2 && t.z == 3 && t.r == 1 && t.g == 2 && t.b == 3); CK("vec2s_fields", u.x == 1 && u.y == 2 && u.r == 1 && u.i == 2 && u.u == 1 && u.v == 2 && u.s == 1 && u.t == 2);
  CK("versors_fields", q.x == 5 && q.y == 6 && q.z == 7 && q.w == 8 && q.real == 8 && q.imag.raw[0] == 5 && q.imag.raw[2] == 7); CK("ivec4s_fields", iv.x == 7 && iv.y == 8 && iv.z == 9 && iv.w == 10);
  CK("mat4s_fields", m.m00 == 0 && m.m01 == 1 && m.m02 == 2 && m.m03 == 3 && m.m10 == 4 && m.m11 == 5 && m.m12 == 6 && m.m13 == 7 && m.m20 == 8 && m.m21 == 9 && m.m22 == 10 && m.m23 == 11 && m.m30 == 12 && m.m31 == 13 && m.m32 == 14 && m.m33 == 15 && m.col[2].raw[1] == 9);
  CK("mat3s_fields", k.m00 == 0 && k.m01 == 1 && k.m02 == 2 && k.m10 == 3 && k.m11 == 4 && k.m12 == 5 && k.m20 == 6 && k.m21 == 7 && k.m22 == 8 && k.col[1].raw[2] == 5); CK("mat2s_fields", l.m00 == 0 && l.m01 == 1 && l.m10 == 2 && l.m11 == 3 && l.col[1].raw[0] == 2);
#define RECT(T, C, R) { T z; for (int i = 0; i < C; i++) for (int j = 0; j < R; j++) z.raw[i][j] = (float)(i * 10 + j); ++states;
  RECT(mat2x3s, 2, 3) CK("mat2x3s_fields", z.m00 == 0 && z.m01 == 1 && z.m02 == 2 && z.m10 == 10 && z.m11 == 11 && z.m12 == 12); } RECT(mat2x4s, 2, 4) CK("mat2x4s_fields", z.m00 == 0 && z.m01 == 1 && z.m02 == 2 && z.m03 == 3 && z.m10 == 10 && z.m11 == 11 && z.m12 == 12 && z.m13 == 13); }
  RECT(mat3x2s, 3, 2) CK("mat3x2s_fields", z.m00 == 0 && z.m01 == 1 && z.m10 == 10 && z.m11 == 11 && z.m20 == 20 && z.m21 == 21); } RECT(mat3x4s, 3, 4) CK("mat3x4s_fields", z.m00 == 0 && z.m01 == 1 && z.m02 == 2 && z.m03 == 3 && z.m10 == 10 && z.m11 == 11 && z.m12 == 12 && z.m13 == 13 && z.m20 == 20 && z.m21 == 21 && z.m22 == 22 && z.m23 == 23); }
  RECT(mat4x2s, 4, 2) CK("mat4x2s_fields", z.m00 == 0 && z.m01 == 1 && z.m10 == 10 && z.m11 == 11 && z.m20 == 20 && z.m21 == 21 && z.m30 == 30 && z.m31 == 31); } RECT(mat4x3s, 4, 3) CK("mat4x3s_fields", z.m00 == 0 && z.m01 == 1 && z.m02 == 2 && z.m10 == 10 && z.m11 == 11 && z.m12 == 12 && z.m20 == 20 && z.m21 == 21 && z.m22 == 22 && z.m30 == 30 && z.m31 == 31 && z.m32 == 32); }
  { ivec3s a3; ivec2s a2; a3.raw[0] = 4; a3.raw[1] = 5; a3.raw[2] = 6; a2.raw[0] = 1; a2.raw[1] = 2; CK("ivec_fields", a3.x == 4 && a3.y == 5 && a3.z == 6 && a3.r == 4 && a3.g == 5 && a3.b == 6 && a2.x == 1 && a2.y == 2 && a2.r == 1 && a2.i == 2); }
#elif defined(WANT_ANON)
  bad("anonymous", "anonymous structs are off although requested or available");
#endif
}
/* array forms: identity_array, mulN, pack and unpack for every count 0..39 */
static void arrays(void) {
  enum { K = 40 }; static CGLM_ALIGN(32) mat4 m[K + 1]; static mat3 n[K + 1]; static CGLM_ALIGN(16) mat2 l[K + 1]; static CGLM_ALIGN(16) versor q[K + 1];
  for (int surf = 0; surf < 3; surf++) for (int c = 0; c < K; c++) {
    for (int i = 0; i <= K; i++) { for (int j = 0; j < 16; j++) ((float *)m[i])[j] = 77; for (int j = 0; j < 9; j++) ((float *)n[i])[j] = 77; for (int j = 0; j < 4; j++) { ((float *)l[i])[j] = 77; q[i][j] = 77; } }
    calls += 4;
    if (surf == 0) { glm_mat4_identity_array(m, c); glm_mat3_identity_array(n, c); glm_mat2_identity_array(l, c); glm_quat_identity_array(q, c); }
#ifdef LINKED
    else if (surf == 1) { glmc_mat4_identity_array(m, c); glmc_mat3_identity_array(n, c); glmc_mat2_identity_array(l, c); glmc_quat_identity_array(q, c); }
#endif
#ifndef OTHER_NAMES
    else if (surf == 2) { glms_mat4_identity_array((mat4s *)m, c); glms_mat3_identity_array((mat3s *)n, c); glms_mat2_identity_array((mat2s *)l, c); glms_quat_identity_array((versors *)q, c); }
#endif
    else continue;
    float s16[16]; for (int j = 0; j < 16; j++) s16[j] = 77;
    for (int i = 0; i <= K; i++) { eqarr("mat4_identity_array", (float *)m[i], i < c ? ID4 : s16, 16); eqarr("mat3_identity_array", (float *)n[i], i < c ? ID3 : s16, 9); eqarr("mat2_identity_array", (float *)l[i], i < c ? ID2 : s16, 4); eqarr("quat_identity_array", q[i], i < c ? IDQ : s16, 4); } }
  /* products of small integer matrices are exact: every sequence of 2..5 over 4 matrices and, for 6..20, every placement of two of them among signed permutations */
  static CGLM_ALIGN(32) mat4 B[4]; for (int k = 0; k < 4; k++) for (int j = 0; j < 16; j++) ((float *)B[k])[j] = (float)((j * 7 + k * 5 + j * j) % 5 - 2);
  static CGLM_ALIGN(32) mat4 PM[3] = {{{0,1,0,0},{0,0,-1,0},{0,0,0,1},{1,0,0,0}}, {{0,0,1,0},{0,1,0,0},{-1,0,0,0},{0,0,0,1}}, {{0,-1,0,0},{1,0,0,0},{0,0,0,-1},{0,0,1,0}}}; unsigned i_;
  static mat4 B0[4]; memcpy(B0, B, sizeof B);
  for (int surf = 0; surf < 3; surf++) for (unsigned len = 2; len <= 20; len++) { int tot = len * len; if (len <= 5) for (tot = 1, i_ = 0; i_ < len; i_++) tot *= 4; for (int t = 0; t < tot; t++) { mat4 *ms[20]; CGLM_ALIGN(32) mat4 d; double w[16], x[16]; int u = t; for (unsigned i = 0; i < len; i++, u /= 4) ms[i] = len <= 5 ? &B[u % 4] : i == t % len ? &B[0] : i == t / len ? &B[1] : &PM[(i / 2 + i) % 3]; for (int j = 0; j < 16; j++) w[j] = ((float *)*ms[0])[j];
    for (unsigned i = 1; i < len; i++) { for (int cc = 0; cc < 4; cc++) for (int r = 0; r < 4; r++) { double s = 0; for (int k = 0; k < 4; k++) s += w[k * 4 + r] * ((float *)*ms[i])[cc * 4 + k]; x[cc * 4 + r] = s; } memcpy(w, x, sizeof w); }
    ++calls; if (surf == 0) glm_mat4_mulN(ms, len, d);
#ifdef LINKED
    else if (surf == 1) glmc_mat4_mulN(ms, len, d);
#endif
#ifndef OTHER_NAMES
    else if (surf == 2) { mat4s r = glms_mat4_mulN((mat4s **)ms, len); memcpy(d, &r, 64); }
#endif
    else continue;
    float wf[16]; for (int j = 0; j < 16; j++) wf[j] = (float)w[j]; eqarr("mat4_mulN", (float *)d, wf, 16); eqarr("mat4_mulN_inputs", (float *)B, (float *)B0, 64); } }
#ifndef OTHER_NAMES
#define PACK(NM, T, S, E, n) do { static CGLM_ALIGN(32) T a_[K + 1], z_[K + 1]; static CGLM_ALIGN(32) S s_[K + 1]; for (int c = 0; c < K; c++) { memset(a_, 0, sizeof a_); memset(s_, 0x5a, sizeof s_); memset(z_, 0x5a, sizeof z_); S keep = s_[K]; for (int i = 0; i <= K; i++) for (int j = 0; j < n; j++) ((E *)a_[i])[j] = (E)(i * 20 + j + 1); \
    NM##_pack(s_, a_, c); NM##_unpack(z_, s_, c); calls += 2; ++states; for (int i = 0; i <= K; i++) { ++checks; if (memcmp(&s_[i], i < c ? (void *)&a_[i] : (void *)&keep, n * 4)) { bad(#NM "_pack", "wrong element or wrote past the end"); break; } if (memcmp(&z_[i], i < c ? (void *)&a_[i] : (void *)&keep, n * 4)) { bad(#NM "_unpack", "wrong element or wrote past the end"); break; } } } } while (0)
  PACK(glms_vec2, vec2, vec2s, float, 2); PACK(glms_vec3, vec3, vec3s, float, 3); PACK(glms_vec4, vec4, vec4s, float, 4); PACK(glms_ivec2, ivec2, ivec2s, int, 2); PACK(glms_ivec3, ivec3, ivec3s, int, 3); PACK(glms_ivec4, ivec4, ivec4s, int, 4);
#endif
}
static void isnaninf(void) {
#ifndef CGLM_FAST_MATH
  static const float A[] = {0, -0.0f, 1, -3e38f, 1e-40f, INFINITY, -INFINITY, NAN}; for (int i = 0; i < 8; i++) for (int j = 0; j < 8; j++) { vec4 v = {A[i], A[j], 1, 2}; vec3 t = {1, A[i], A[j]}; vec2 u = {A[i], A[j]}; bool n = isnan(A[i]) || isnan(A[j]), f = isinf(A[i]) || isinf(A[j]); ++states; calls += 9; CK("isnan", glm_vec4_isnan(v) == n && glm_vec3_isnan(t) == n && glm_vec2_isnan(u) == n); CK("isinf", glm_vec4_isinf(v) == f && glm_vec3_isinf(t) == f && glm_vec2_isinf(u) == f); CK("isvalid", glm_vec4_isvalid(v) == !(n || f) && glm_vec3_isvalid(t) == !(n || f) && glm_vec2_isvalid(u) == !(n || f)); }
#endif
}
int main(int argc, char **argv) {
  if (argc > 1 && !strcmp(argv[1], "arrays")) arrays();
  else sizes(), constants(), inits(), macros(), defaults(), anon(), arrays(), isnaninf();
  printf("STATS states=%ld calls=%ld checks=%ld\n", states, calls, checks);
  return 0;
}
