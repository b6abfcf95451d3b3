/* C34: the four-lane helper layer of one instruction-set build against lane-wise references */
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <stdio.h>
#include <math.h>
#include <float.h>
#include <stdbool.h>
#include <string.h>
#if defined(CGLMV_NEON32) || defined(CGLMV_NEON64) || defined(CGLMV_WASM)
#  include "emu/undef_x86.h"
#endif
#include <cglm/cglm.h>
static long states, calls, checks, fails;
static void fail4(const char *site, const char *what, const float *a, const float *b, const float *c, const float *g, const float *w, int n) {
  if (++fails > 60) return; printf("FAIL %s %ld %s: a=(%a %a %a %a)", site, states, what, a[0], a[1], a[2], a[3]); if (b) printf(" b=(%a %a %a %a)", b[0], b[1], b[2], b[3]); if (c) printf(" c=(%a %a %a %a)", c[0], c[1], c[2], c[3]);
  printf(" got"); for (int i = 0; i < n; i++) printf(" %a", g[i]); printf(" want"); for (int i = 0; i < n; i++) printf(" %a", w[i]); printf("\n"); }
static bool same(float x, float y) { return x == y || (isnan(x) && isnan(y)); }
static bool nearf(float g, double w, double mag) { if (isnan(w)) return isnan(g); if (isinf(w) || fabs(w) > FLT_MAX || mag > FLT_MAX) return !isfinite(g) || mag > FLT_MAX / 4; return fabs((double)g - w) <= mag * 6e-7 + 1e-44; }
#define ST(dst, v) glmm_store(dst, v)
#define EACH(site, G, W, n) do { ++checks; for (int i_ = 0; i_ < n; i_++) if (!same(G[i_], W[i_])) { fail4(site, "lane differs", a, NULL, NULL, G, W, n); break; } } while (0)
#define A16 _Alignas(32)
typedef glmm_128 V;
static void unary(const float *in) {
  A16 float a[8], g[8], w[8]; memcpy(a, in, 16); ++states; V v = glmm_load(a); bool nan = false; double s = 0, m = 0, mn = a[0], mx = a[0], s2 = 0;
  for (int i = 0; i < 4; i++) { nan |= isnan(a[i]); s += a[i]; m += fabs((double)a[i]); if (a[i] < mn) mn = a[i]; if (a[i] > mx) mx = a[i]; s2 += (double)a[i] * a[i]; }
  ST(g, v); EACH("load_store", g, a, 4);
  ST(g, glmm_splat_x(v)); for (int i = 0; i < 4; i++) w[i] = a[0]; EACH("splat_x", g, w, 4);
  ST(g, glmm_splat_y(v)); for (int i = 0; i < 4; i++) w[i] = a[1]; EACH("splat_y", g, w, 4);
  ST(g, glmm_splat_z(v)); for (int i = 0; i < 4; i++) w[i] = a[2]; EACH("splat_z", g, w, 4);
  ST(g, glmm_splat_w(v)); for (int i = 0; i < 4; i++) w[i] = a[3]; EACH("splat_w", g, w, 4);
  { float x = a[1]; float *px = &a[2]; for (int i = 0; i < 4; i++) w[i] = x; ST(g, glmm_set1(x)); EACH("set1", g, w, 4); ST(g, glmm_set1_rval(x * 1.0f)); EACH("set1_rval", g, w, 4); ST(g, glmm_set1_ptr(px)); for (int i = 0; i < 4; i++) w[i] = a[2]; EACH("set1_ptr", g, w, 4); }
  ST(g, glmm_abs(v)); for (int i = 0; i < 4; i++) w[i] = fabsf(a[i]); EACH("abs", g, w, 4); ++checks; for (int i = 0; i < 4; i++) if (!isnan(g[i]) && signbit(g[i])) { fail4("abs", "sign bit set", a, NULL, NULL, g, w, 4); break; }
  calls += 9;
  if (!nan) {
    float h = glmm_hmin(v), H = glmm_hmax(v), ni = glmm_norm_inf(v); w[0] = (float)mn; EACH("hmin", (&h), w, 1); w[0] = (float)mx; EACH("hmax", (&H), w, 1); w[0] = 0; for (int i = 0; i < 4; i++) if (fabsf(a[i]) > w[0]) w[0] = fabsf(a[i]); EACH("norm_inf", (&ni), w, 1);
#if !defined(CGLMV_NEON32) && !defined(CGLMV_NEON64)
    ST(g, glmm_vhmin(v)); w[0] = (float)mn; EACH("vhmin", g, w, 1); ST(g, glmm_vhmax(v)); w[0] = (float)mx; EACH("vhmax", g, w, 1);
#endif
  }
  struct { const char *n; float g; double w, m; } R[] = {{"hadd", glmm_hadd(v), s, m}, {"norm2", glmm_norm2(v), s2, s2}, {"norm_one", glmm_norm_one(v), m, m}, {"norm", glmm_norm(v), sqrt(s2), s2 > FLT_MAX / 8 ? INFINITY : sqrt(s2) + (s2 < 1e-36 ? 3e-23 / 6e-7 : 0)}};
  bool inf = false; double fin = 0; for (int i = 0; i < 4; i++) { inf |= isinf(a[i]); if (isfinite(a[i])) fin += fabs((double)a[i]); }
  for (unsigned i = 0; i < sizeof R / sizeof *R; i++) { ++checks; ++calls; if (inf && i == 0 && !nan) { /* partial sums may overflow to the other infinity */ if (fin > FLT_MAX ? isfinite(R[i].g) : !same(R[i].g, (float)s)) goto bad; continue; } if (nan ? !isnan(R[i].g) : inf ? !isinf(R[i].g) : !nearf(R[i].g, R[i].w, R[i].m)) { float ww; bad: ww = (float)R[i].w; fail4(R[i].n, "differs", a, NULL, NULL, &R[i].g, &ww, 1); } }
  if (!nan && !inf) { ST(g, glmm_vhadd(v)); ++calls; ++checks; for (int i = 0; i < 4; i++) if (!nearf(g[i], s, m)) { w[0] = (float)s; fail4("vhadd", "lanes must all hold the sum", a, NULL, NULL, g, w, 4); break; } }
#if !defined(CGLMV_NEON32) && !defined(CGLMV_NEON64)
  if (!nan && !inf) { ST(g, glmm_vhadds(v)); ++calls; ++checks; if (!nearf(g[0], s, m)) { w[0] = (float)s; fail4("vhadds", "lane 0 must hold the sum", a, NULL, NULL, g, w, 1); } }
  { float z[5] = {-77, a[0], a[1], a[2], -78}; ST(g, glmm_load3(z + 1)); for (int i = 0; i < 3; i++) w[i] = a[i]; w[3] = 0; EACH("load3", g, w, 4);
    float o[6] = {91, 92, 93, 94, 95, 96}; glmm_store3(o + 1, v); float ww[6] = {91, a[0], a[1], a[2], 95, 96}; EACH("store3", o, ww, 6); calls += 2; }
  { V n; float q[4];
#define SH(z, y, x, ww_) n = glmm_shuff1(v, z, y, x, ww_); ST(g, n); q[0] = a[ww_]; q[1] = a[x]; q[2] = a[y]; q[3] = a[z]; EACH("shuff1", g, q, 4); ++calls;
#define SH2(z, y, x) SH(z, y, x, 0) SH(z, y, x, 1) SH(z, y, x, 2) SH(z, y, x, 3)
#define SH3(z, y) SH2(z, y, 0) SH2(z, y, 1) SH2(z, y, 2) SH2(z, y, 3)
#define SH4(z) SH3(z, 0) SH3(z, 1) SH3(z, 2) SH3(z, 3)
    SH4(0) SH4(1) SH4(2) SH4(3)
    n = glmm_splat(v, 2); ST(g, n); for (int i = 0; i < 4; i++) w[i] = a[2]; EACH("splat", g, w, 4); }
#  ifdef CGLMV_WASM
  ST(g, wasm_v128_xor(v, glmm_float32x4_SIGNMASK_NEG));
#  else
  ST(g, _mm_xor_ps(v, glmm_float32x4_SIGNMASK_NEG));
#  endif
  for (int i = 0; i < 4; i++) w[i] = -a[i]; EACH("signmask_neg", g, w, 4); ++calls;
#else
  { V n = glmm_swplane(v); ST(g, n); w[0] = a[2]; w[1] = a[3]; w[2] = a[0]; w[3] = a[1]; EACH("swplane", g, w, 4);
    A16 float r4[4] = {a[3], a[2], a[1], a[0]}; V r = glmm_load(r4); float *b = r4;
    ST(g, glmm_combine_ll(v, r)); { float q[4] = {a[0], a[1], b[0], b[1]}; EACH("combine_ll", g, q, 4); } ST(g, glmm_combine_hl(v, r)); { float q[4] = {a[2], a[3], b[0], b[1]}; EACH("combine_hl", g, q, 4); }
    ST(g, glmm_combine_lh(v, r)); { float q[4] = {a[0], a[1], b[2], b[3]}; EACH("combine_lh", g, q, 4); } ST(g, glmm_combine_hh(v, r)); { float q[4] = {a[2], a[3], b[2], b[3]}; EACH("combine_hh", g, q, 4); }
    { float t[2]; vst1_f32(t, glmm_low(v)); EACH("low", t, a, 2); vst1_f32(t, glmm_high(v)); EACH("high", t, (a + 2), 2); }
    V mk = glmm_float32x4_SIGNMASK_PNPN; ST(g, glmm_xor(v, mk)); { float q[4] = {a[0], -a[1], a[2], -a[3]}; EACH("xor_PNPN", g, q, 4); }
    V m2 = glmm_float32x4_SIGNMASK_NPNP; ST(g, glmm_xor(v, m2)); { float q[4] = {-a[0], a[1], -a[2], a[3]}; EACH("xor_NPNP", g, q, 4); }
    V m3 = glmm_float32x4_SIGNMASK_NPPN; ST(g, glmm_xor(v, m3)); { float q[4] = {-a[0], a[1], a[2], -a[3]}; EACH("xor_NPPN", g, q, 4); } calls += 9; }
#endif
}
static void dots(const float *x, const float *y) {
  A16 float a[4], b[4], g[4]; memcpy(a, x, 16); memcpy(b, y, 16); ++states; V va = glmm_load(a), vb = glmm_load(b); double s = 0, m = 0; for (int i = 0; i < 4; i++) { s += (double)a[i] * b[i]; m += fabs((double)a[i] * b[i]); }
  float d = glmm_dot(va, vb); float w = (float)s; calls += 2; checks += 2; if (!nearf(d, s, m)) fail4("dot", "differs", a, b, NULL, &d, &w, 1);
  ST(g, glmm_vdot(va, vb)); for (int i = 0; i < 4; i++) if (!nearf(g[i], s, m)) { float q[4] = {w, w, w, w}; fail4("vdot", "all lanes must hold the product", a, b, NULL, g, q, 4); break; }
#if !defined(CGLMV_NEON32) && !defined(CGLMV_NEON64)
  ST(g, glmm_vdots(va, vb)); ++calls; ++checks; if (!nearf(g[0], s, m)) fail4("vdots", "lane 0 must hold the product", a, b, NULL, g, &w, 1);
#endif
}
static void lane2(const float *x, const float *y) {
  A16 float a[4], b[4], g[4], w[4]; memcpy(a, x, 16); memcpy(b, y, 16); ++states; V va = glmm_load(a), vb = glmm_load(b); bool nan = false; for (int i = 0; i < 4; i++) nan |= isnan(a[i]) || isnan(b[i]);
  if (!nan) { ST(g, glmm_min(va, vb)); for (int i = 0; i < 4; i++) w[i] = b[i] < a[i] ? b[i] : a[i]; ++checks; for (int i = 0; i < 4; i++) if (g[i] != w[i]) { fail4("min", "lane differs", a, b, NULL, g, w, 4); break; }
    ST(g, glmm_max(va, vb)); for (int i = 0; i < 4; i++) w[i] = b[i] > a[i] ? b[i] : a[i]; ++checks; for (int i = 0; i < 4; i++) if (g[i] != w[i]) { fail4("max", "lane differs", a, b, NULL, g, w, 4); break; } calls += 2; }
  ST(g, glmm_div(va, vb)); ++calls; ++checks; for (int i = 0; i < 4; i++) { w[i] = a[i] / b[i];
#ifdef CGLMV_NEON32
    /* two Newton steps on a reciprocal estimate: compared only where the reciprocal and the quotient are normal */
    float fb = fabsf(b[i]); if (!(fb > 1e-30f && fb < 1e30f) || !(fabsf(w[i]) > 1e-30f && fabsf(w[i]) < 1e30f)) continue; if (fabs((double)g[i] - w[i]) > 2e-6 * fabs(w[i]))
#else
    if (!same(g[i], w[i]))
#endif
      { fail4("div", "lane differs", a, b, NULL, g, w, 4); break; } }
}
#define FM(name, C, E1, E2) do { ST(g, name(va, vb, vc)); ++calls; ++checks; for (int i = 0; i < 4; i++) { double A = a[i], B_ = b[i], Cc = c[i]; double e = E1; double m = fabs(A * B_) + fabs(Cc); w[i] = (float)(e); if (!nearf(g[i], e, m)) { fail4(#name, "lane differs", a, b, c, g, w, 4); break; } (void)(E2); } } while (0)
static void lane3(const float *x, const float *y, const float *z) {
  A16 float a[4], b[4], c[4], g[4], w[4]; memcpy(a, x, 16); memcpy(b, y, 16); memcpy(c, z, 16); ++states; V va = glmm_load(a), vb = glmm_load(b), vc = glmm_load(c);
  FM(glmm_fmadd, 0, A * B_ + Cc, 0); FM(glmm_fnmadd, 0, Cc - A * B_, 0); FM(glmm_fmsub, 0, A * B_ - Cc, 0); FM(glmm_fnmsub, 0, -(A * B_) - Cc, 0);
}
#ifdef __AVX__
static void wide(const float *x, const float *y, const float *z) {
  A16 float a[8], b[8], c[8], g[8], w[8]; memcpy(a, x, 32); memcpy(b, y, 32); memcpy(c, z, 32); ++states; __m256 va = glmm_load256(a), vb = glmm_load256(b), vc = glmm_load256(c);
#define FW(name, E1) do { glmm_store256(g, name(va, vb, vc)); ++calls; ++checks; for (int i = 0; i < 8; i++) { double A = a[i], B_ = b[i], Cc = c[i]; double e = E1, m = fabs(A * B_) + fabs(Cc); w[i] = (float)e; if (!nearf(g[i], e, m)) { fail4(#name, "lane differs (first half shown)", a, b, c, g, w, 8); break; } } } while (0)
  FW(glmm256_fmadd, A * B_ + Cc); FW(glmm256_fnmadd, Cc - A * B_); FW(glmm256_fmsub, A * B_ - Cc); FW(glmm256_fnmsub, -(A * B_) - Cc);
  glmm_store256(g, va); ++checks; for (int i = 0; i < 8; i++) if (!same(g[i], a[i])) { fail4("load256", "lane differs", a, NULL, NULL, g, a, 8); break; }
  glmm_store256(g, _mm256_xor_ps(va, glmm_float32x8_SIGNMASK_NEG)); ++checks; for (int i = 0; i < 8; i++) if (!same(g[i], -a[i])) { fail4("signmask8_neg", "lane differs", a, NULL, NULL, g, a, 8); break; }
}
#endif
static const float AL[] = {0.0f, -0.0f, 1, -1, 2.5f, -3.75f, 0.1f, 1e-6f, -1e20f, 3e38f, 1e-40f, INFINITY, -INFINITY, NAN, 7, -0.3333333f, 16777217.0f, -123.456f, 1e-20f, 1.17549435e-38f, -1.0000001f, 0.99999994f, 65504.0f};
enum { NA = sizeof AL / sizeof *AL };
static const float D[] = {0, 1, -2.5f, 0.1f, 3e3f, -7e-4f};
int main(void) {
  for (int i = 0; i < NA; i++) for (int j = 0; j < NA; j++) for (int k = 0; k < NA; k++) for (int l = 0; l < NA; l++) {
#ifndef DEEP
    if (i > 13 && j > 13 && (k > 13 || l > 13)) continue;
#endif
    float a[4] = {AL[i], AL[j], AL[k], AL[l]}; unary(a); }
  enum { ND = sizeof D / sizeof *D };
#ifdef DEEP
  const int nd = ND;
#else
  const int nd = 5;
#endif
  int tot = 1; for (int i = 0; i < 4; i++) tot *= nd; for (int p = 0; p < tot; p++) for (int q = 0; q < tot; q++) { float a[4], b[4]; for (int i = 0, t = p, u = q; i < 4; i++, t /= nd, u /= nd) { a[i] = D[t % nd]; b[i] = D[u % nd]; } dots(a, b); }
  /* every pair in lane 0, other lanes hold rotated pairs, so every pair reaches every lane */
  for (int p = 0; p < NA * NA; p++) for (int s = 0; s < 4; s++) { float a[4], b[4]; for (int i = 0; i < 4; i++) { int r = (p + (i + s) * 37) % (NA * NA); a[i] = AL[r % NA]; b[i] = AL[r / NA]; } lane2(a, b); }
  static const float T[] = {0, -0.0f, 1, -1, 2.5f, -3.75f, 0.1f, 1e-6f, -1e15f, 7, -0.3333333f, 16777217.0f, -123.456f, -1.0000001f, 65504.0f, 1e-20f}; enum { NT = sizeof T / sizeof *T, N3 = NT * NT * NT };
  for (int p = 0; p < N3; p++) { float a[8], b[8], c[8]; for (int i = 0; i < 8; i++) { int r = (p + i * 1237) % N3; a[i] = T[r % NT]; b[i] = T[r / NT % NT]; c[i] = T[r / NT / NT]; } for (int s = 0; s < 5; s += 4) lane3(a + s, b + s, c + s);
#ifdef __AVX__
    wide(a, b, c);
#endif
  }
  printf("SAMPLE horizontal ops on (inf, -0, 1e-40, 3e38); fnmsub on a=65504 b=-1.0000001 c=16777217\nSTATS states=%ld calls=%ld checks=%ld\n", states, calls, checks);
  return 0;
}
