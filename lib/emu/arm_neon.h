/* Stand-in for <arm_neon.h> on an x86 host: every intrinsic cglm uses, written from the Arm Neon
   intrinsics reference with GCC vector extensions (lane semantics are what matters here). */
#pragma once
#include <stdint.h>
#include <string.h>
#include <math.h>
typedef float   float32x2_t __attribute__((vector_size(8)));
typedef float   float32x4_t __attribute__((vector_size(16)));
typedef int32_t int32x4_t   __attribute__((vector_size(16)));
typedef uint32_t uint32x4_t __attribute__((vector_size(16)));
typedef float float32_t;
typedef struct { float32x2_t val[2]; } float32x2x2_t;
typedef struct { float32x4_t val[2]; } float32x4x2_t;
typedef struct { float32x4_t val[3]; } float32x4x3_t;
typedef struct { float32x4_t val[4]; } float32x4x4_t;
#define CGLMV_NI static inline __attribute__((always_inline, unused))
CGLMV_NI float32x4_t vld1q_f32(const float *p) { float32x4_t r; memcpy(&r, p, 16); return r; }
CGLMV_NI float32x2_t vld1_f32(const float *p) { float32x2_t r; memcpy(&r, p, 8); return r; }
CGLMV_NI void vst1q_f32(float *p, float32x4_t a) { memcpy(p, &a, 16); }
CGLMV_NI void vst1_f32(float *p, float32x2_t a) { memcpy(p, &a, 8); }
#define vst1_lane_f32(p, a, l)  (*(float *)(p) = (a)[l])
#define vst1q_lane_f32(p, a, l) (*(float *)(p) = (a)[l])
CGLMV_NI float32x4_t vld1q_dup_f32(const float *p) { return (float32x4_t){*p, *p, *p, *p}; }
#define vld1q_lane_f32(p, a, l) ({ float32x4_t t_ = (a); t_[l] = *(const float *)(p); t_; })
#define vsetq_lane_f32(x, a, l) ({ float32x4_t t_ = (a); t_[l] = (x); t_; })
#define vset_lane_f32(x, a, l)  ({ float32x2_t t_ = (a); t_[l] = (x); t_; })
CGLMV_NI float32x4_t vdupq_n_f32(float x) { return (float32x4_t){x, x, x, x}; }
CGLMV_NI float32x2_t vdup_n_f32(float x) { return (float32x2_t){x, x}; }
#define vmovq_n_f32 vdupq_n_f32
#define vdupq_lane_f32(a, l) vdupq_n_f32(((float32x2_t)(a))[l])
#define vdup_lane_f32(a, l)  vdup_n_f32(((float32x2_t)(a))[l])
#define vdupq_laneq_f32(a, l) vdupq_n_f32(((float32x4_t)(a))[l])
#define vget_lane_f32(a, l)  (((float32x2_t)(a))[l])
#define vgetq_lane_f32(a, l) (((float32x4_t)(a))[l])
CGLMV_NI float32x2_t vget_low_f32(float32x4_t a) { return (float32x2_t){a[0], a[1]}; }
CGLMV_NI float32x2_t vget_high_f32(float32x4_t a) { return (float32x2_t){a[2], a[3]}; }
CGLMV_NI float32x4_t vcombine_f32(float32x2_t a, float32x2_t b) { return (float32x4_t){a[0], a[1], b[0], b[1]}; }
CGLMV_NI float32x4_t vaddq_f32(float32x4_t a, float32x4_t b) { return a + b; }
CGLMV_NI float32x4_t vsubq_f32(float32x4_t a, float32x4_t b) { return a - b; }
CGLMV_NI float32x4_t vmulq_f32(float32x4_t a, float32x4_t b) { return a * b; }
CGLMV_NI float32x4_t vdivq_f32(float32x4_t a, float32x4_t b) { return a / b; }
CGLMV_NI float32x2_t vadd_f32(float32x2_t a, float32x2_t b) { return a + b; }
CGLMV_NI float32x2_t vsub_f32(float32x2_t a, float32x2_t b) { return a - b; }
CGLMV_NI float32x2_t vmul_f32(float32x2_t a, float32x2_t b) { return a * b; }
CGLMV_NI float32x4_t vmulq_n_f32(float32x4_t a, float b) { return a * b; }
CGLMV_NI float32x4_t vnegq_f32(float32x4_t a) { return -a; }
CGLMV_NI float32x4_t vabsq_f32(float32x4_t a) { return (float32x4_t)((int32x4_t)a & 0x7fffffff); }
CGLMV_NI float cglmv_nmin(float a, float b) { return a != a ? a : b != b ? b : (a < b || (a == b && signbit(a))) ? a : b; }
CGLMV_NI float cglmv_nmax(float a, float b) { return a != a ? a : b != b ? b : (a > b || (a == b && signbit(b))) ? a : b; }
CGLMV_NI float32x4_t vminq_f32(float32x4_t a, float32x4_t b) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = cglmv_nmin(a[i], b[i]); return r; }
CGLMV_NI float32x4_t vmaxq_f32(float32x4_t a, float32x4_t b) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = cglmv_nmax(a[i], b[i]); return r; }
CGLMV_NI float32x2_t vpmin_f32(float32x2_t a, float32x2_t b) { return (float32x2_t){cglmv_nmin(a[0], a[1]), cglmv_nmin(b[0], b[1])}; }
CGLMV_NI float32x2_t vpmax_f32(float32x2_t a, float32x2_t b) { return (float32x2_t){cglmv_nmax(a[0], a[1]), cglmv_nmax(b[0], b[1])}; }
CGLMV_NI float32x2_t vpadd_f32(float32x2_t a, float32x2_t b) { return (float32x2_t){a[0] + a[1], b[0] + b[1]}; }
CGLMV_NI float32x4_t vpaddq_f32(float32x4_t a, float32x4_t b) { return (float32x4_t){a[0] + a[1], a[2] + a[3], b[0] + b[1], b[2] + b[3]}; }
CGLMV_NI float vaddvq_f32(float32x4_t a) { return (a[0] + a[1]) + (a[2] + a[3]); }
CGLMV_NI float vmaxvq_f32(float32x4_t a) { return cglmv_nmax(cglmv_nmax(a[0], a[1]), cglmv_nmax(a[2], a[3])); }
CGLMV_NI float vminvq_f32(float32x4_t a) { return cglmv_nmin(cglmv_nmin(a[0], a[1]), cglmv_nmin(a[2], a[3])); }
CGLMV_NI float32x4_t vsqrtq_f32(float32x4_t a) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = sqrtf(a[i]); return r; }
/* vmla/vmls: separate rounding; vfma/vfms: fused */
CGLMV_NI float32x4_t vmlaq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { return a + b * c; }
CGLMV_NI float32x4_t vmlsq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { return a - b * c; }
CGLMV_NI float32x4_t vfmaq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = __builtin_fmaf(b[i], c[i], a[i]); return r; }
CGLMV_NI float32x4_t vfmsq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = __builtin_fmaf(-b[i], c[i], a[i]); return r; }
#define vmulq_lane_f32(a, v, l)     vmulq_f32(a, vdupq_lane_f32(v, l))
#define vmulq_laneq_f32(a, v, l)    vmulq_f32(a, vdupq_laneq_f32(v, l))
#define vmlaq_lane_f32(a, b, v, l)  vmlaq_f32(a, b, vdupq_lane_f32(v, l))
#define vmlsq_lane_f32(a, b, v, l)  vmlsq_f32(a, b, vdupq_lane_f32(v, l))
#define vfmaq_laneq_f32(a, b, v, l) vfmaq_f32(a, b, vdupq_laneq_f32(v, l))
#define vfmaq_lane_f32(a, b, v, l)  vfmaq_f32(a, b, vdupq_lane_f32(v, l))
/* 8-bit reciprocal estimate (x = m*2^e, m in [1,2): estimate rounded to 9 significant bits) */
CGLMV_NI float cglmv_recpe(float x) {
  if (x == 0.0f || isinf(x) || x != x) return 1.0f / x;
  int e; double q; float r = (float)(1.0 / (double)x); if (isinf(r) || r == 0.0f) return r;
  q = frexp(r, &e); return (float)ldexp(floor(q * 512.0 + 0.5) / 512.0, e);
}
CGLMV_NI float32x4_t vrecpeq_f32(float32x4_t a) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = cglmv_recpe(a[i]); return r; }
CGLMV_NI float cglmv_recps(float a, float b) { return ((a == 0.0f && isinf(b)) || (isinf(a) && b == 0.0f)) ? 2.0f : 2.0f - a * b; }
CGLMV_NI float32x4_t vrecpsq_f32(float32x4_t a, float32x4_t b) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = cglmv_recps(a[i], b[i]); return r; }
CGLMV_NI int32x4_t vreinterpretq_s32_f32(float32x4_t a) { return (int32x4_t)a; }
CGLMV_NI float32x4_t vreinterpretq_f32_s32(int32x4_t a) { return (float32x4_t)a; }
CGLMV_NI uint32x4_t vreinterpretq_u32_f32(float32x4_t a) { return (uint32x4_t)a; }
CGLMV_NI float32x4_t vreinterpretq_f32_u32(uint32x4_t a) { return (float32x4_t)a; }
CGLMV_NI int32x4_t veorq_s32(int32x4_t a, int32x4_t b) { return a ^ b; }
CGLMV_NI uint32x4_t veorq_u32(uint32x4_t a, uint32x4_t b) { return a ^ b; }
CGLMV_NI int32x4_t vdupq_n_s32(int32_t x) { return (int32x4_t){x, x, x, x}; }
#define vextq_f32(a, b, n) ({ float32x4_t a_ = (a), b_ = (b), r_; for (int i_ = 0; i_ < 4; i_++) r_[i_] = (i_ + (n)) < 4 ? a_[(i_ + (n)) & 3] : b_[(i_ + (n) - 4) & 3]; r_; })
CGLMV_NI float32x4_t vrev64q_f32(float32x4_t a) { return (float32x4_t){a[1], a[0], a[3], a[2]}; }
CGLMV_NI float32x2_t vrev64_f32(float32x2_t a) { return (float32x2_t){a[1], a[0]}; }
CGLMV_NI float32x4x2_t vtrnq_f32(float32x4_t a, float32x4_t b) { float32x4x2_t r = {{{a[0], b[0], a[2], b[2]}, {a[1], b[1], a[3], b[3]}}}; return r; }
CGLMV_NI float32x4x2_t vzipq_f32(float32x4_t a, float32x4_t b) { float32x4x2_t r = {{{a[0], b[0], a[1], b[1]}, {a[2], b[2], a[3], b[3]}}}; return r; }
CGLMV_NI float32x4x2_t vuzpq_f32(float32x4_t a, float32x4_t b) { float32x4x2_t r = {{{a[0], a[2], b[0], b[2]}, {a[1], a[3], b[1], b[3]}}}; return r; }
CGLMV_NI float32x4_t vzip1q_f32(float32x4_t a, float32x4_t b) { return (float32x4_t){a[0], b[0], a[1], b[1]}; }
CGLMV_NI float32x4_t vzip2q_f32(float32x4_t a, float32x4_t b) { return (float32x4_t){a[2], b[2], a[3], b[3]}; }
CGLMV_NI float32x4_t vuzp1q_f32(float32x4_t a, float32x4_t b) { return (float32x4_t){a[0], a[2], b[0], b[2]}; }
CGLMV_NI float32x4_t vuzp2q_f32(float32x4_t a, float32x4_t b) { return (float32x4_t){a[1], a[3], b[1], b[3]}; }
CGLMV_NI float32x4_t vtrn1q_f32(float32x4_t a, float32x4_t b) { return (float32x4_t){a[0], b[0], a[2], b[2]}; }
CGLMV_NI float32x4_t vtrn2q_f32(float32x4_t a, float32x4_t b) { return (float32x4_t){a[1], b[1], a[3], b[3]}; }
CGLMV_NI float32x4x4_t vld4q_f32(const float *p) { float32x4x4_t r; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) r.val[j][i] = p[4 * i + j]; return r; }
CGLMV_NI void vst4q_f32(float *p, float32x4x4_t a) { for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) p[4 * i + j] = a.val[j][i]; }
