/* C33: printing. variants: -DSURF=0 inline, 1 struct, 2 library; -DEXPECT_NOOP when NDEBUG without CGLM_DEFINE_PRINTS */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <stdbool.h>
#ifndef SURF
#define SURF 0
#endif
#if SURF == 1
#include <cglm/struct.h>
#elif SURF == 2
#include <cglm/call.h>
#else
#include <cglm/cglm.h>
#endif
#ifndef CGLM_PRINT_PRECISION
#define CGLM_PRINT_PRECISION 5
#endif
static long states, calls, checks, fails, only = -1;
static void fail(const char *site, const char *msg, const char *out) { if (++fails > 40) return; char b[400]; int j = 0; for (int i = 0; out[i] && j < 380; i++) { if (out[i] == '\n') { b[j++] = '\\'; b[j++] = 'n'; } else if (out[i] == 27) b[j++] = '^'; else b[j++] = out[i]; } b[j] = 0; printf("FAIL %s %ld %s; output was: %s\n", site, states, msg, b); }
/* kinds: how to print */
enum { M4, M3, M2, V4, V3, V2, I4, I3, I2, Q, BOX, BOXT, NK };
static const char *KN[] = {"mat4", "mat3", "mat2", "vec4", "vec3", "vec2", "ivec4", "ivec3", "ivec2", "versor", "aabb", "aabb_tag"};
static const int KE[] = {16, 9, 4, 4, 3, 2, 4, 3, 2, 4, 6, 6};
static const char *HD[] = {"float4x4", "float3x3", "float2x2", "float4", "float3", "float2", "int4", "int3", "int2", "float4", "float", "my box"};
static bool emit(int k, float *f, int *iv, FILE *o) {
  ++calls;
#if SURF == 0
  switch (k) { case M4: { glm_mat4_print((vec4 *)f, o); } break; case M3: { glm_mat3_print((vec3 *)f, o); } break; case M2: { glm_mat2_print((vec2 *)f, o); } break; case V4: { glm_vec4_print(f, o); } break; case V3: { glm_vec3_print(f, o); } break; case V2: { glm_vec2_print(f, o); } break; case I4: { glm_ivec4_print(iv, o); } break; case I3: { glm_ivec3_print(iv, o); } break; case I2: { glm_ivec2_print(iv, o); } break; case Q: { glm_versor_print(f, o); } break; case BOX: { const char *t = NULL; glm_aabb_print((vec3 *)f, t, o); } break; case BOXT: { const char *t = "my box"; glm_aabb_print((vec3 *)f, t, o); } break; }
  return true;
#elif SURF == 1
  mat4s a; mat3s b; vec4s c; vec3s d, bx[2]; vec2s e; ivec4s g; ivec3s h; ivec2s i; versors q;
  switch (k) { case M4: memcpy(&a, f, 64); glms_mat4_print(a, o); return true; case M3: memcpy(&b, f, 36); glms_mat3_print(b, o); return true; case V4: memcpy(&c, f, 16); glms_vec4_print(c, o); return true; case V3: memcpy(&d, f, 12); glms_vec3_print(d, o); return true; case V2: memcpy(&e, f, 8); glms_vec2_print(e, o); return true; case I4: memcpy(&g, iv, 16); glms_ivec4_print(g, o); return true; case I3: memcpy(&h, iv, 12); glms_ivec3_print(h, o); return true; case I2: memcpy(&i, iv, 8); glms_ivec2_print(i, o); return true; case Q: memcpy(&q, f, 16); glms_versor_print(q, o); return true; case BOX: memcpy(bx, f, 24); glms_aabb_print(bx, NULL, o); return true; case BOXT: memcpy(bx, f, 24); glms_aabb_print(bx, "my box", o); return true; }
  return false;
#else
  switch (k) { case M4: glmc_mat4_print((vec4 *)f, o); return true; case M3: glmc_mat3_print((vec3 *)f, o); return true; case V4: glmc_vec4_print(f, o); return true; case V3: glmc_vec3_print(f, o); return true; case Q: glmc_versor_print(f, o); return true; }
  return false;
#endif
}
static void check(int k, const float *fv, const int *iv0) {
  ++states; if (only >= 0 && states != only) return;
  _Alignas(32) float f[16]; int iv[4] = {0}; memcpy(f, fv, sizeof f); if (iv0) memcpy(iv, iv0, sizeof iv);
  char *buf = NULL; size_t len = 0; FILE *o = open_memstream(&buf, &len); bool has = emit(k, f, iv, o); fclose(o); if (!has) { free(buf); return; }
  const char *site = KN[k]; bool isint = k >= I4 && k <= I2; ++checks;
  if (only >= 0) printf("output: %s\n", buf);
  if (memcmp(f, fv, sizeof f) || (iv0 && memcmp(iv, iv0, sizeof iv))) fail(site, "the argument was modified", buf);
#ifdef EXPECT_NOOP
  if (len) fail(site, "prints although printing is compiled out", buf); free(buf); return;
#endif
  /* strip colours */
  char *s = malloc(len + 1); size_t n = 0; for (size_t i = 0; i < len; i++) { if (buf[i] == 27) { while (i < len && buf[i] != 'm') i++; continue; } s[n++] = buf[i]; } s[n] = 0;
  char *nl = strchr(s, '\n'); if (!nl) { fail(site, "no header line", buf); goto out; }
  { char hd[64]; snprintf(hd, sizeof hd, "(%s)", HD[k]); char *p = strstr(s, hd); if (!p || p > nl) fail(site, "the header does not name the type", buf); }
  { int rows = 0, width = -1; double got[64]; int ng = 0; bool bad = false;
    for (char *l = nl + 1; *l;) { char *e = strchr(l, '\n'); if (!e) e = l + strlen(l); char line[1024]; int w = (int)(e - l) < 1000 ? (int)(e - l) : 1000; memcpy(line, l, w); line[w] = 0; l = *e ? e + 1 : e; int inline_ = 0; char *p = line; while (*p) { if (strchr(" |()\t", *p)) { p++; continue; } char *q; double v = strtod(p, &q); if (q == p || (*q && !strchr(" |()", *q))) { bad = true; break; } if (ng < 60) got[ng++] = v; inline_++; p = q; }
      if (inline_) { rows++; if (k <= M2) { if (width < 0) width = w; else if (w != width) fail(site, "matrix rows have different widths", buf); int dim = k == M4 ? 4 : k == M3 ? 3 : 2; if (inline_ != dim) fail(site, "a matrix row has the wrong number of elements", buf); } if (k >= BOX && inline_ != 3) fail(site, "a corner has the wrong number of elements", buf); } }
    if (bad) { fail(site, "an element is not a number or runs into its neighbour", buf); goto out; }
    if (ng != KE[k]) { fail(site, "wrong number of elements", buf); goto out; }
    (void)rows;
    int dim = k == M4 ? 4 : k == M3 ? 3 : 2;
    for (int i = 0; i < ng; i++) { ++checks; double e = isint ? (double)iv[i] : k <= M2 ? f[(i % dim) * dim + i / dim] : f[i]; double tol = isint ? 0 : e < 99999.5 ? 0.50001 * pow(10, -CGLM_PRINT_PRECISION) + fabs(e) * 1e-15 : 6e-6 * fabs(e); bool same = isnan(e) ? isnan(got[i]) : isinf(e) ? got[i] == e : fabs(got[i] - e) <= tol; if (!same) { char m[120]; snprintf(m, sizeof m, "element %d is printed as %.9g but is %.9g", i, got[i], e); fail(site, m, buf); } } }
out: free(s); free(buf);
}
int main(int c, char **v) {
  if (c > 2) only = atol(v[2]);
  static const float VAL[] = {0, 1, -1, 0.5f, -0.25f, 3.14159265f, -2.71828f, 1e-5f, 4e-6f, -7.77e-7f, 123.456f, 9999.99f, 99999.f, 99999.99f, 100000.f, 123456.7f, 1e6f, 3.4e38f, -1e5f, -123456.7f, -99999.99f, 1e10f, 1e-38f, INFINITY, NAN, 12345.679f, 0.99999f, 0.999999f, 54321.12f};
  static const int IVAL[] = {0, 1, -1, 7, -42, 1000, 123456789, -123456789, 2147483647, -2147483647 - 1, 99, 100000};
  static const float BASE[4][16] = {{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}, {0.1f, -0.2f, 0.3f, -0.4f, 0.5f, -0.6f, 0.7f, -0.8f, 0.9f, 1.1f, -1.2f, 1.3f, -1.4f, 1.5f, 1.6f, -1.7f}, {1e5f, 2e5f, 3e6f, 4e7f, 5e8f, 6e9f, 7e5f, 8e5f, 9e5f, 1.5e5f, 2.5e6f, 1.25e7f, 3e8f, 4e9f, 5e10f, 6e11f}, {1e6f, -2, 3e7f, 4.25f, 5, 6e5f, -7, 8e9f, 9.5f, 10, 1.25e6f, 12, 1.5e5f, 14, 15.75f, 1e20f}};
  for (int k = 0; k < NK; k++) { int n = KE[k];
    if (k >= I4 && k <= I2) { for (int p = 0; p < n; p++) for (int q = 0; q < n; q++) for (unsigned a = 0; a < sizeof IVAL / 4; a++) for (unsigned b = 0; b < sizeof IVAL / 4; b++) { int iv[4] = {11, 22, 33, 44}; iv[p] = IVAL[a]; iv[q] = IVAL[b]; check(k, BASE[0], iv); } continue; }
    for (int b = 0; b < 4; b++) { check(k, BASE[b], NULL); for (int p = 0; p < n; p++) for (unsigned a = 0; a < sizeof VAL / 4; a++) { float f[16]; memcpy(f, BASE[b], sizeof f); f[p] = VAL[a]; check(k, f, NULL); if (b < 2) for (int q = p + 1; q < n; q++) for (unsigned z = a % 3; z < sizeof VAL / 4; z += n > 6 ? 3 : 1) { f[q] = VAL[z]; check(k, f, NULL); f[q] = BASE[b][q]; } } } }
  printf("SAMPLE mat4 with 123456.7 at every position next to every other value; ivec4 with INT_MIN\nSTATS states=%ld calls=%ld checks=%ld\n", states, calls, checks);
  return 0;
}
