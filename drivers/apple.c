/* C35: the conversions to Apple's simd types, with the types of <simd/simd.h> declared here as compiler vectors */
#include <stdio.h>
#include <string.h>
#include <math.h>
#include <stdint.h>
#include <float.h>
#include <stdbool.h>
#include <stdlib.h>
#include <assert.h>
#define __APPLE__ 1
#define SIMD_COMPILER_HAS_REQUIRED_FEATURES 1
#define SIMD_BASE 1
#define SIMD_TYPES 1
#define SIMD_VECTOR_TYPES 1
typedef float simd_float4 __attribute__((vector_size(16)));
typedef float simd_float3 __attribute__((vector_size(16)));
typedef struct { simd_float4 columns[4]; } simd_float4x4;
typedef struct { simd_float3 columns[3]; } simd_float3x3;
#ifdef STRUCT_FIRST
#include <cglm/struct.h>
#endif
#include <cglm/cglm.h>
#include <cglm/applesimd.h>
static long states, calls, checks, fails;
static void ck(const char *s, int c, int r, float got, float want) { ++checks; if (memcmp(&got, &want, 4) && ++fails < 20) printf("FAIL %s %ld element [%d][%d] is %a, expected %a\n", s, states, c, r, got, want); }
static const float P[] = {1.0f, -2.5f, 0.0f, -0.0f, INFINITY, -INFINITY, FLT_MAX, 1e-40f, FLT_MIN, 0.1f};
#define NP (int)(sizeof P / sizeof *P)
static void run4(mat4 m, vec4 v) {
  simd_float4x4 t = glm_mat4_applesimd(m); simd_float4 u = glm_vec4_applesimd(v); mat4s ms; vec4s vs; memcpy(&ms, m, sizeof ms); memcpy(&vs, v, sizeof vs);
  simd_float4x4 ts = glms_mat4_(applesimd)(ms); simd_float4 us = glms_vec4_(applesimd)(vs);
#if !defined(__cplusplus) && __STDC_VERSION__ >= 201112L
  simd_float4x4 tg = applesimd(ms); simd_float4 ug = applesimd(vs);
#else
  simd_float4x4 tg = ts; simd_float4 ug = us;
#endif
  states++; calls += 6;
  for (int c = 0; c < 4; c++) { for (int r = 0; r < 4; r++) { ck("glm_mat4_applesimd", c, r, t.columns[c][r], m[c][r]); ck("glms_mat4_applesimd", c, r, ts.columns[c][r], m[c][r]); ck("applesimd(mat4s)", c, r, tg.columns[c][r], m[c][r]); }
    ck("glm_vec4_applesimd", 0, c, u[c], v[c]); ck("glms_vec4_applesimd", 0, c, us[c], v[c]); ck("applesimd(vec4s)", 0, c, ug[c], v[c]); }
}
static void run3(mat3 m, vec3 v) {
  simd_float3x3 t = glm_mat3_applesimd(m); simd_float3 u = glm_vec3_applesimd(v); mat3s ms; vec3s vs; memcpy(&ms, m, sizeof ms); memcpy(&vs, v, sizeof vs);
  simd_float3x3 ts = glms_mat3_(applesimd)(ms); simd_float3 us = glms_vec3_(applesimd)(vs);
#if !defined(__cplusplus) && __STDC_VERSION__ >= 201112L
  simd_float3x3 tg = applesimd(ms); simd_float3 ug = applesimd(vs);
#else
  simd_float3x3 tg = ts; simd_float3 ug = us;
#endif
  states++; calls += 6;
  for (int c = 0; c < 3; c++) { for (int r = 0; r < 3; r++) { ck("glm_mat3_applesimd", c, r, t.columns[c][r], m[c][r]); ck("glms_mat3_applesimd", c, r, ts.columns[c][r], m[c][r]); ck("applesimd(mat3s)", c, r, tg.columns[c][r], m[c][r]); }
    ck("glm_vec3_applesimd", 0, c, u[c], v[c]); ck("glms_vec3_applesimd", 0, c, us[c], v[c]); ck("applesimd(vec3s)", 0, c, ug[c], v[c]); }
}
int main(void) {
  mat4 m; vec4 v; mat3 n; vec3 w;
  for (int e = -1; e < 16; e++) for (int p = 0; p < NP; p++) { /* every element takes every special value; all elements distinct otherwise */
    for (int i = 0; i < 16; i++) m[i / 4][i % 4] = i == e ? P[p] : (float)(i + 3);
    for (int i = 0; i < 4; i++) v[i] = i == e ? P[p] : (float)(i + 30);
    for (int i = 0; i < 9; i++) n[i / 3][i % 3] = i == e ? P[p] : (float)(i + 5);
    for (int i = 0; i < 3; i++) w[i] = i == e ? P[p] : (float)(i + 40);
    run4(m, v); run3(n, w); }
  printf("STATS states=%ld calls=%ld checks=%ld\n", states, calls, checks); return fails != 0;
}
