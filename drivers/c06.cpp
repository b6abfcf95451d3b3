// C06: component-wise float vector operations
// API: vec2_* vec3_* vec4_* vec2 vec3 vec4
#include "cglmv.hpp"
static const FV &A1() { return RICH(); }
static const FV &A3() { static FV v = {0.f, 1.f, -1.f, 0.5f, -2.f, 3.f, -0.7f, 1.f / 3, 100.f, 1e-3f, -FLT_EPSILON, 1e20f, -1e-20f, 16777216.f, INFINITY, -INFINITY, NAN, 2.5f, -10.f, FLT_MAX, 0.1f, 42.f, -300.f, 6e3f, -2e4f, 4e5f, -1e-5f, 2e-9f, -0.05f}; return v; }
// vector number i over the alphabet v: mixed lanes, then uniform vectors, then small, axis-parallel and sparse ones
static const float SPEC[10][4] = {{1e-3f, -2e-3f, 5e-4f, 7e-4f}, {3e-3f, 4e-4f, 9e-3f, -6e-3f}, {2e-5f, -1e-5f, 3e-5f, 5e-6f}, {0.2f, -0.1f, 0.05f, 0.25f}, {0, 0.3f, 0, 0}, {-7, 0, 0, 0}, {0, 0, 5, 0}, {0, 0, 0, -3}, {-3, -11, -0.5f, -40}, {4e4f, -3e5f, 2e6f, 1e5f}};
static inline size_t VN(const FV &v) { return 2 * v.size() + 10; }
static inline float lane(const FV &v, size_t i, int k, int st) { size_t n = v.size(); return i < n ? v[(i + (size_t)k * st) % n] : i < 2 * n ? v[i - n] : SPEC[i - 2 * n][k]; }
static inline bool tiny(float x) { return x != 0 && fabsf(x) < 2e-37f; }
static inline bool hugef(float x) { return fabsf(x) > 1e37f; }
static inline float fsign(float x) { return (float)((x > 0) - (x < 0)); }
static inline bool finprod(float x, float y) { return !std::isfinite(x) || !std::isfinite(y) || fabs((double)x * y) < 3e38; }
static inline bool finsum(float x, float y) { return !std::isfinite(x) || !std::isfinite(y) || fabs((double)x + y) < 3e38; }
#define ALLN(M, ...) M(2, __VA_ARGS__) M(3, __VA_ARGS__) M(4, __VA_ARGS__)
#define FILLD(N, d) for (int k_ = 0; k_ < N; k_++) d[k_] = 12345.f

// (a, b) -> dest; COND: when the result is determined; EXACT: one IEEE operation
#define BIN(N, name, CMP, COND) SITE(vec##N##_##name) { if (!HAVE(glm_vec##N##_##name)) return; const FV &A = A1(); \
  for (size_t i = 0; i < VN(A); i++) for (size_t j = 0; j < VN(A); j++) { r.tick(); A32 float a[N], b[N], d[N]; \
    for (int k = 0; k < N; k++) { a[k] = lane(A, i, k, 5); b[k] = lane(A, j, k, 11); } FILLD(N, d); r.show("a", a, N); r.show("b", b, N); \
    F(glm_vec##N##_##name)(a, b, d); \
    for (int k = 0; k < N; k++) { float x = a[k], y = b[k]; (void)x; (void)y; if (COND) { CMP; } } } }
#define EX(e) r.eqf("component", d[k], (float)(e))
#define NR(e) r.num("component", d[k], (e), 4)
ALLN(BIN, add, EX(x + y), true)
ALLN(BIN, sub, EX(x - y), true)
ALLN(BIN, mul, EX(x * y), true)
ALLN(BIN, div, NR(R(x) / R(y)), !tiny(y) && !hugef(y) && !tiny(x) && !hugef(x) && !(r.emu && (y == 0 || y != y)))
ALLN(BIN, maxv, EX(x > y ? x : y), x == x && y == y)
ALLN(BIN, minv, EX(x < y ? x : y), x == x && y == y)
ALLN(BIN, step, EX(y < x ? 0.f : 1.f), x == x && y == y)
#define BINC(N, ...) SITE(vec##N##_center) { if (!HAVE(glm_vec##N##_center)) return; const FV &A = A1(); \
  for (size_t i = 0; i < VN(A); i++) for (size_t j = 0; j < VN(A); j++) { r.tick(); A32 float a[N], b[N], d[N]; \
    for (int k = 0; k < N; k++) { a[k] = lane(A, i, k, 5); b[k] = lane(A, j, k, 11); } FILLD(N, d); r.show("a", a, N); r.show("b", b, N); \
    F(glm_vec##N##_center)(a, b, d); \
    for (int k = 0; k < N; k++) if (finsum(a[k], b[k]) && std::isfinite(a[k]) && std::isfinite(b[k])) r.near("component", d[k], (R(a[k]) + R(b[k])) * 0.5, 4, 1e-44); } }
BINC(2) BINC(3)

// (v, scalar) -> dest
#define VS(N, name, CMP, COND) SITE(vec##N##_##name) { if (!HAVE(glm_vec##N##_##name)) return; const FV &A = A1(); \
  for (size_t i = 0; i < VN(A); i++) for (size_t j = 0; j < A.size(); j++) { r.tick(); A32 float a[N], d[N]; float y = A[j]; \
    for (int k = 0; k < N; k++) a[k] = lane(A, i, k, 5); FILLD(N, d); r.show("v", a, N); r.show("s", y); \
    F(glm_vec##N##_##name)(a, y, d); \
    for (int k = 0; k < N; k++) { float x = a[k]; (void)x; if (COND) { CMP; } } } }
ALLN(VS, adds, EX(x + y), true)
ALLN(VS, subs, EX(x - y), true)
ALLN(VS, scale, EX(x * y), true)
ALLN(VS, divs, NR(R(x) / R(y)), !tiny(y) && !hugef(y) && !tiny(x) && !hugef(x) && !(y == 0 && r.emu))
ALLN(VS, mods, EX(fmodf(x, y)), true)
ALLN(VS, stepr, EX(y < x ? 0.f : 1.f), x == x && y == y)
#define STEPS(N, ...) SITE(vec##N##_steps) { if (!HAVE(glm_vec##N##_steps)) return; const FV &A = A1(); \
  for (size_t i = 0; i < VN(A); i++) for (size_t j = 0; j < A.size(); j++) { r.tick(); A32 float a[N], d[N]; float e = A[j]; \
    for (int k = 0; k < N; k++) a[k] = lane(A, i, k, 5); FILLD(N, d); r.show("x", a, N); r.show("edge", e); F(glm_vec##N##_steps)(e, a, d); \
    for (int k = 0; k < N; k++) if (e == e && a[k] == a[k]) r.eqf("component", d[k], a[k] < e ? 0.f : 1.f); } }
ALLN(STEPS, 0)

// unary
#define UN(N, name, CMP, COND) SITE(vec##N##_##name) { if (!HAVE(glm_vec##N##_##name)) return; const FV &A = A1(); FV X = A; \
  for (float x : A) if (std::isfinite(x) && x != 0) { X.push_back(fnext(x)); X.push_back(fprev(x)); X.push_back(-x); X.push_back(x * 1.7f); X.push_back(x / 3); } \
  for (int q = -40; q <= 40; q++) { X.push_back(q * 0.25f); X.push_back(q * 0.5f + 1e-6f); X.push_back(q - 1e-7f); } for (int e = -45; e <= 38; e++) { X.push_back(powf(10, e)); X.push_back(-powf(10, e) * 3.3f); } \
  for (size_t i = 0; i < X.size(); i++) for (int st = 0; st < 7; st += 3) { r.tick(); A32 float a[N], d[N]; for (int k = 0; k < N; k++) a[k] = lane(X, i, k, st); FILLD(N, d); r.show("v", a, N); \
    F(glm_vec##N##_##name)(a, d); for (int k = 0; k < N; k++) { float x = a[k]; (void)x; if (COND) { CMP; } } } }
ALLN(UN, negate_to, EX(-x), true)
ALLN(UN, abs, EX(fabsf(x)), true)
ALLN(UN, floor, EX(floorf(x)), true)
ALLN(UN, sqrt, NR(R(sqrt((double)x))), true)
ALLN(UN, sign, EX(fsign(x)), true)
ALLN(UN, copy, r.same("component", d[k], x), true)
UN(4, ucopy, r.same("component", d[k], x), true)
ALLN(UN, make, r.same("component", d[k], x), true)
ALLN(UN, fract, EX(fminf(x - floorf(x), 0.99999994f)), std::isfinite(x))
UN(2, complex_conjugate, EX(k ? -x : x), true)
#define INPL(N, ...) SITE(vec##N##_inplace) { const FV &A = A1(); \
  for (size_t i = 0; i < VN(A); i++) { r.tick(); A32 float a[N], d[N]; for (int k = 0; k < N; k++) d[k] = a[k] = lane(A, i, k, 5); r.show("v", a, N); \
    if (HAVE(glm_vec##N##_negate)) { F(glm_vec##N##_negate)(d); for (int k = 0; k < N; k++) r.eqf("negate", d[k], -a[k]); } \
    if (HAVE(glm_vec##N##_zero)) { memcpy(d, a, sizeof d); F(glm_vec##N##_zero)(d); for (int k = 0; k < N; k++) r.eqf("zero", d[k], 0.f); } \
    if (HAVE(glm_vec##N##_one)) { memcpy(d, a, sizeof d); F(glm_vec##N##_one)(d); for (int k = 0; k < N; k++) r.eqf("one", d[k], 1.f); } \
    if (HAVE(glm_vec##N##_fill)) for (float s : A) { r.tick(); memcpy(d, a, sizeof d); F(glm_vec##N##_fill)(d, s); for (int k = 0; k < N; k++) r.eqf("fill", d[k], s); } } \
  for (size_t i = 0; i < VN(A); i++) for (float lo : A) for (float hi : A) if (lo <= hi && HAVE(glm_vec##N##_clamp)) { r.tick(); A32 float a[N], d[N]; for (int k = 0; k < N; k++) d[k] = a[k] = lane(A, i, k, 5); r.show("v", a, N); r.show("min", lo); r.show("max", hi); \
    F(glm_vec##N##_clamp)(d, lo, hi); for (int k = 0; k < N; k++) if (a[k] == a[k]) r.eqf("clamp", d[k], a[k] < lo ? lo : a[k] > hi ? hi : a[k]); } }
ALLN(INPL, 0)
#define BCAST(N, ...) SITE(vec##N##_broadcast) { if (!HAVE(glm_vec##N##_broadcast)) return; for (float s : A1()) { r.tick(); A32 float d[N]; FILLD(N, d); r.show("s", s); F(glm_vec##N##_broadcast)(s, d); for (int k = 0; k < N; k++) r.eqf("broadcast", d[k], s); } }
BCAST(3) BCAST(4)

// accumulate: dest (op)= f(a, b)
#define ACC(N, name, SCAL, EXPR, COND) SITE(vec##N##_##name) { if (!HAVE(glm_vec##N##_##name)) return; const FV &A = r.thorough ? A1() : A3(); \
  for (size_t i = 0; i < VN(A); i++) for (size_t j = 0; j < (SCAL ? A.size() : VN(A)); j++) for (size_t l = 0; l < VN(A); l++) { r.tick(); A32 float a[N], b[N], d[N], d0[N]; \
    for (int k = 0; k < N; k++) { a[k] = lane(A, i, k, 5); b[k] = SCAL ? A[j] : lane(A, j, k, 2); d0[k] = d[k] = lane(A, l, k, 1); } r.show("a", a, N); r.show("b", b, N); r.show("dest before", d0, N); \
    CALL##SCAL(N, name); \
    for (int k = 0; k < N; k++) { float x = a[k], y = b[k], z = d0[k]; if (COND) { R e = EXPR; if (std::isfinite(e.v) || (finprod(x, y) && finsum(x, y) && finsum(x, -y))) r.num("component", d[k], e, 4); } } } }
#define CALL0(N, name) F(glm_vec##N##_##name)(a, b, d)
#define CALL1(N, name) F(glm_vec##N##_##name)(a, b[0], d)
#define X_ R(x)
#define Y_ R(y)
#define Z_ R(z)
ALLN(ACC, addadd, 0, Z_ + (X_ + Y_), true)
ALLN(ACC, subadd, 0, Z_ + (X_ - Y_), true)
ALLN(ACC, addsub, 0, Z_ - (X_ + Y_), true)
ALLN(ACC, subsub, 0, Z_ - (X_ - Y_), true)
ALLN(ACC, muladd, 0, Z_ + X_ * Y_, true)
ALLN(ACC, mulsub, 0, Z_ - X_ * Y_, true)
ALLN(ACC, muladds, 1, Z_ + X_ * Y_, true)
ALLN(ACC, mulsubs, 1, Z_ - X_ * Y_, true)
ALLN(ACC, maxadd, 0, Z_ + Rmax(X_, Y_), x == x && y == y)
ALLN(ACC, minadd, 0, Z_ + Rmin(X_, Y_), x == x && y == y)
ALLN(ACC, maxsub, 0, Z_ - Rmax(X_, Y_), x == x && y == y)
ALLN(ACC, minsub, 0, Z_ - Rmin(X_, Y_), x == x && y == y)

// interpolation
static const FV &AI() { static FV v = {0.f, 1.f, -1.f, 0.5f, -2.f, 3.f, -0.7f, 1.f / 3, 100.f, 1e-3f, 16777216.f, 2.5f, -10.f, 0.1f, 5.f, -42.f, 300.f, -6e3f, 4e5f, -1e-5f, 3e-9f, 1.003f, 0.9997f}; return v; }
static const FV &AT() { static FV v = {0.f, 1.f, 0.5f, 0.25f, 0.75f, 1.f / 3, 0.1f, 0.99f, 1e-3f, 1e-7f, 0.99999994f, -0.5f, -1.f, -1e-6f, 1.0000001f, 1.5f, 2.f, 10.f, -3.f, 70.f, -1000.f, 0.996f, 1.004f, 0.9997f, 3e-4f, -2e-4f, 0.502f, 4e-5f, 0.99995f}; return v; }
static inline double cl01(double t) { return t < 0 ? 0 : t > 1 ? 1 : t; }
static inline R smooth01(R t) { double c = cl01(t.v); R q(c, std::max(c, t.m)); return q * q * (R(3) - R(2) * q); }
#define LERP(N, name, EXPR) SITE(vec##N##_##name) { if (!HAVE(glm_vec##N##_##name)) return; const FV &A = AI(); \
  for (size_t i = 0; i < VN(A); i++) for (size_t j = 0; j < VN(A); j++) for (float t : AT()) { r.tick(); A32 float a[N], b[N], d[N]; \
    for (int k = 0; k < N; k++) { a[k] = lane(A, i, k, 4); b[k] = lane(A, j, k, 7); } FILLD(N, d); r.show("from", a, N); r.show("to", b, N); r.show("t", t); \
    F(glm_vec##N##_##name)(a, b, t, d); for (int k = 0; k < N; k++) { R x(a[k]), y(b[k]); r.num("component", d[k], EXPR, 8); } } }
#define L_(T) x + R(T) * (y - x)
LERP(2, lerp, L_(cl01(t)))
LERP(3, lerp, L_(t)) LERP(4, lerp, L_(t)) LERP(3, mix, L_(t)) LERP(4, mix, L_(t))
LERP(3, lerpc, L_(cl01(t))) LERP(4, lerpc, L_(cl01(t))) LERP(3, mixc, L_(cl01(t))) LERP(4, mixc, L_(cl01(t)))
static inline R smi(float t) { return R(t) * R(t) * (R(3) - R(2) * R(t)); }
LERP(3, smoothinterp, x + smi(t) * (y - x)) LERP(4, smoothinterp, x + smi(t) * (y - x))
LERP(3, smoothinterpc, x + smi(cl01(t)) * (y - x)) LERP(4, smoothinterpc, x + smi(cl01(t)) * (y - x))
#define SMS(N, ...) SITE(vec##N##_smoothstep) { const FV &A = AI(); FV X = A; for (float t : AT()) X.push_back(t * 5 - 2); \
  for (size_t i = 0; i < VN(A); i++) for (size_t j = 0; j < VN(A); j++) for (size_t l = 0; l < VN(X); l++) { r.tick(); A32 float a[N], b[N], x[N], d[N]; \
    for (int k = 0; k < N; k++) { a[k] = lane(A, i, k, 4); b[k] = lane(A, j, k, 7); x[k] = lane(X, l, k, 3); } FILLD(N, d); r.show("edge0", a, N); r.show("edge1", b, N); r.show("x", x, N); \
    if (HAVE(glm_vec##N##_smoothstep)) { F(glm_vec##N##_smoothstep)(a, b, x, d); for (int k = 0; k < N; k++) if (a[k] != b[k]) r.num("smoothstep", d[k], smooth01((R(x[k]) - R(a[k])) / (R(b[k]) - R(a[k]))), 16); } \
    if (HAVE(glm_vec##N##_smoothstep_uni) && i < A.size() && j < A.size() && A[i] != A[j]) { FILLD(N, d); F(glm_vec##N##_smoothstep_uni)(A[i], A[j], x, d); for (int k = 0; k < N; k++) r.num("smoothstep_uni", d[k], smooth01((R(x[k]) - R(A[i])) / (R(A[j]) - R(A[i]))), 16); } } }
SMS(3) SMS(4)
#define CPX(name, E0, E1, COND) SITE(vec2_complex_##name) { if (!HAVE(glm_vec2_complex_##name)) return; FV A = MID(); auto P = product<2>(A); \
  for (auto &p : P) for (auto &q : P) { r.tick(); A32 float d[2] = {12345, 12345}; float *a = p.a, *b = q.a; R ar(a[0]), ai(a[1]), br(b[0]), bi(b[1]); if (!(COND)) continue; r.show("a", a, 2); r.show("b", b, 2); \
    F(glm_vec2_complex_##name)(a, b, d); r.num("re", d[0], E0, 12); r.num("im", d[1], E1, 12); } }
CPX(mul, ar * br - ai * bi, ar * bi + ai * br, true)
CPX(div, (ar * br + ai * bi) / (br * br + bi * bi), (ai * br - ar * bi) / (br * br + bi * bi), b[0] != 0 || b[1] != 0)

// conversions between sizes
SITE(convert) { const FV &A = A1(); for (size_t i = 0; i < VN(A); i++) for (size_t j = 0; j < A.size(); j++) { r.tick(); A32 float v[4], d[4]; for (int k = 0; k < 4; k++) v[k] = lane(A, i, k, 5); float last = A[j]; r.show("v", v, 4); r.show("last", last);
    if (HAVE(glm_vec2)) { FILLD(2, d); F(glm_vec2)(v, d); r.samev("vec2(vec3)", d, v, 2); }
    if (HAVE(glm_vec3)) { FILLD(3, d); F(glm_vec3)(v, d); r.samev("vec3(vec4)", d, v, 3); }
    if (HAVE(glm_vec4)) { FILLD(4, d); F(glm_vec4)(v, last, d); r.samev("vec4(vec3,last)", d, v, 3); r.same("vec4.w", d[3], last); }
    if (HAVE(glm_vec4_copy3)) { FILLD(3, d); F(glm_vec4_copy3)(v, d); r.samev("copy3", d, v, 3); } } }
// vec4_cubic: powers of a scalar
SITE(vec4_cubic) { if (!HAVE(glm_vec4_cubic)) return; FV A = RICH(); for (int q = -30; q <= 30; q++) A.push_back(q * 0.37f); for (float s : A) { if (!(fabsf(s) < 1e10f) || tiny(s)) continue; r.tick(); A32 float d[4]; FILLD(4, d); r.show("s", s); F(glm_vec4_cubic)(s, d); R x(s);
    r.num("s^3", d[0], x * x * x, 4); r.num("s^2", d[1], x * x, 4); r.eqf("s", d[2], s); r.eqf("1", d[3], 1.f); } }
int main(int c, char **v) { return cglmv_main(c, v); }
