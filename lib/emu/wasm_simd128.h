/* Stand-in for <wasm_simd128.h> on an x86 host: every intrinsic cglm uses, from the WebAssembly SIMD specification. */
#pragma once
#include <stdint.h>
#include <string.h>
#include <math.h>
typedef int32_t v128_t __attribute__((vector_size(16)));
typedef float cglmv_f4 __attribute__((vector_size(16)));
#define CGLMV_WI static inline __attribute__((always_inline, unused))
#define CGLMV_F(a) ((cglmv_f4)(a))
CGLMV_WI v128_t wasm_v128_load(const void *p) { v128_t r; memcpy(&r, p, 16); return r; }
CGLMV_WI void wasm_v128_store(void *p, v128_t a) { memcpy(p, &a, 16); }
CGLMV_WI v128_t wasm_v128_load32_zero(const void *p) { v128_t r = {0}; memcpy(&r, p, 4); return r; }
CGLMV_WI v128_t wasm_v128_load64_zero(const void *p) { v128_t r = {0}; memcpy(&r, p, 8); return r; }
CGLMV_WI v128_t wasm_v128_load32_splat(const void *p) { int32_t x; memcpy(&x, p, 4); return (v128_t){x, x, x, x}; }
#define wasm_v128_store32_lane(p, a, l) do { v128_t t_ = (a); memcpy((p), (char *)&t_ + 4 * (l), 4); } while (0)
#define wasm_v128_store64_lane(p, a, l) do { v128_t t_ = (a); memcpy((p), (char *)&t_ + 8 * (l), 8); } while (0)
CGLMV_WI v128_t wasm_f32x4_splat(float x) { return (v128_t)(cglmv_f4){x, x, x, x}; }
#define wasm_f32x4_const(a, b, c, d) ((v128_t)(cglmv_f4){(float)(a), (float)(b), (float)(c), (float)(d)})
#define wasm_f32x4_make(a, b, c, d) wasm_f32x4_const(a, b, c, d)
#define wasm_f32x4_const_splat(a) wasm_f32x4_splat(a)
#define wasm_i32x4_const(a, b, c, d) ((v128_t){(int32_t)(a), (int32_t)(b), (int32_t)(c), (int32_t)(d)})
#define wasm_i32x4_const_splat(a) wasm_i32x4_const(a, a, a, a)
#define wasm_i32x4_splat(a) wasm_i32x4_const_splat(a)
CGLMV_WI v128_t wasm_v128_xor(v128_t a, v128_t b) { return a ^ b; }
CGLMV_WI v128_t wasm_v128_and(v128_t a, v128_t b) { return a & b; }
CGLMV_WI v128_t wasm_v128_or(v128_t a, v128_t b) { return a | b; }
CGLMV_WI v128_t wasm_f32x4_add(v128_t a, v128_t b) { return (v128_t)(CGLMV_F(a) + CGLMV_F(b)); }
CGLMV_WI v128_t wasm_f32x4_sub(v128_t a, v128_t b) { return (v128_t)(CGLMV_F(a) - CGLMV_F(b)); }
CGLMV_WI v128_t wasm_f32x4_mul(v128_t a, v128_t b) { return (v128_t)(CGLMV_F(a) * CGLMV_F(b)); }
CGLMV_WI v128_t wasm_f32x4_div(v128_t a, v128_t b) { return (v128_t)(CGLMV_F(a) / CGLMV_F(b)); }
CGLMV_WI v128_t wasm_f32x4_neg(v128_t a) { return a ^ (int32_t)0x80000000; }
CGLMV_WI v128_t wasm_f32x4_abs(v128_t a) { return a & 0x7fffffff; }
CGLMV_WI v128_t wasm_f32x4_sqrt(v128_t a) { cglmv_f4 r; for (int i = 0; i < 4; i++) r[i] = sqrtf(CGLMV_F(a)[i]); return (v128_t)r; }
CGLMV_WI v128_t wasm_f32x4_pmin(v128_t a, v128_t b) { cglmv_f4 r; for (int i = 0; i < 4; i++) r[i] = CGLMV_F(b)[i] < CGLMV_F(a)[i] ? CGLMV_F(b)[i] : CGLMV_F(a)[i]; return (v128_t)r; }
CGLMV_WI v128_t wasm_f32x4_pmax(v128_t a, v128_t b) { cglmv_f4 r; for (int i = 0; i < 4; i++) r[i] = CGLMV_F(a)[i] < CGLMV_F(b)[i] ? CGLMV_F(b)[i] : CGLMV_F(a)[i]; return (v128_t)r; }
#define wasm_f32x4_extract_lane(a, l) (((cglmv_f4)(a))[l])
#define wasm_f32x4_replace_lane(a, l, x) ({ cglmv_f4 t_ = (cglmv_f4)(a); t_[l] = (x); (v128_t)t_; })
#define wasm_i32x4_shuffle(a, b, c0, c1, c2, c3) ({ v128_t a_ = (a), b_ = (b); int m_[4] = {(c0), (c1), (c2), (c3)}; v128_t r_; for (int i_ = 0; i_ < 4; i_++) r_[i_] = m_[i_] < 4 ? a_[m_[i_] & 3] : b_[m_[i_] & 3]; r_; })
