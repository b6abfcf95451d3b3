// C09: integer vectors
// API: ivec*
#include "cglmv.hpp"
typedef std::vector<int> IV;
static const IV &A() { static IV v = {0, 1, -1, 2, -2, 3, -3, 7, -7, 10, 100, -100, 1000, -1001, 32767, -32768, 46340, 65536, 16777217, -16777219, INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 12, 5, 41, 255, 65535, -65537, 1 << 30, 123456789}; return v; }
static int ln(const IV &v, size_t i, int k, int st) { return v[(i + (size_t)k * st) % v.size()]; }
static bool fits(long long x) { return x >= INT_MIN && x <= INT_MAX; }
typedef long long L;
#define ALLN(M, ...) M(2, __VA_ARGS__) M(3, __VA_ARGS__) M(4, __VA_ARGS__)
#define BIN(N, name, SC, E, COND) SITE(ivec##N##_##name) { if (!HAVE(glm_ivec##N##_##name)) return; const IV &a_ = A(); for (size_t i = 0; i < a_.size(); i++) for (size_t j = 0; j < a_.size(); j++) for (int st = 0; st < 3; st++) { \
  A32 int a[N], b[N], d[N]; bool ok = true; for (int k = 0; k < N; k++) { a[k] = ln(a_, i, k, st); b[k] = SC ? a_[j] : ln(a_, j, k, st * 3); d[k] = 777; L x = a[k], y = b[k]; ok = ok && (COND) && fits(x) && fits(E); } if (!ok) { if (st == 0) continue; for (int k = 0; k < N; k++) { a[k] %= 1000; b[k] %= 1000; L x = a[k], y = b[k]; if (!(COND)) b[k] = 3; } } \
  r.tick(); r.showi("a", a, N); r.showi("b", b, N); CALL##SC(N, name); for (int k = 0; k < N; k++) { L x = a[k], y = b[k]; r.eqi(#name, d[k], (int)(E)); } } \
  for (size_t i = 0; i < a_.size(); i++) for (size_t j = 0; j < a_.size(); j++) for (int q = 0; q < N; q++) for (int u = 0; u < 2; u++) { A32 int a[N], b[N], d[N]; bool ok = true; /* every pair in every lane, small companions */ \
    for (int k = 0; k < N; k++) { a[k] = k == q ? a_[i] : (k + i + u) % 3 == 0 ? 0 : (k + j) % 2 ? 1 : -1; b[k] = SC || k == q ? a_[j] : (int)(k + 2) * (u ? -1 : 1); d[k] = 777; L x = a[k], y = b[k]; ok = ok && (COND) && fits(E); } if (!ok) continue; r.tick(); r.showi("a", a, N); r.showi("b", b, N); CALL##SC(N, name); for (int k = 0; k < N; k++) { L x = a[k], y = b[k]; r.eqi(#name, d[k], (int)(E)); } } }
#define CALL0(N, name) F(glm_ivec##N##_##name)(a, b, d)
#define CALL1(N, name) F(glm_ivec##N##_##name)(a, b[0], d)
ALLN(BIN, add, 0, x + y, true) ALLN(BIN, sub, 0, x - y, true) ALLN(BIN, mul, 0, x * y, true) ALLN(BIN, adds, 1, x + y, true) ALLN(BIN, subs, 1, x - y, true) ALLN(BIN, scale, 1, x * y, true)
ALLN(BIN, maxv, 0, x > y ? x : y, true) ALLN(BIN, minv, 0, x < y ? x : y, true)
#define DIVC (y != 0 && !(x == INT_MIN && y == -1))
#define BIN23(...) BIN(2, __VA_ARGS__) BIN(3, __VA_ARGS__)
BIN23(div, 0, y ? x / y : 0, DIVC) BIN23(mod, 0, y ? x % y : 0, DIVC) BIN23(divs, 1, y ? x / y : 0, DIVC)
#define ACC(N, name, SC, E) SITE(ivec##N##_##name) { if (!HAVE(glm_ivec##N##_##name)) return; static const IV S = {0, 1, -1, 2, -3, 7, 10, -100, 1001, 12345, -30000}; for (size_t i = 0; i < S.size(); i++) for (size_t j = 0; j < S.size(); j++) for (size_t l = 0; l < S.size(); l++) { r.tick(); \
  A32 int a[N], b[N], d[N], z0[N]; for (int k = 0; k < N; k++) { a[k] = ln(S, i, k, 2); b[k] = SC ? S[j] : ln(S, j, k, 3); z0[k] = d[k] = ln(S, l, k, 5); } r.showi("a", a, N); r.showi("b", b, N); r.showi("dest before", z0, N); CALL##SC(N, name); for (int k = 0; k < N; k++) { L x = a[k], y = b[k], z = z0[k]; r.eqi(#name, d[k], (int)(E)); } } \
  const IV &T = A(); for (size_t i = 0; i < T.size(); i++) for (size_t j = 0; j < T.size(); j++) for (size_t l = 0; l < T.size(); l++) { L X = T[i], Y = T[j], Z = T[l]; { L x = X, y = Y, z = Z; if (!fits(E) || !fits((E) - z) || !fits(z - (E))) continue; } for (int q = 0; q < N; q++) { /* every triple in every lane, small companions */ \
  A32 int a[N], b[N], d[N], z0[N]; bool ok = true; for (int k = 0; k < N; k++) { a[k] = k == q ? (int)X : (k + i) % 3 == 0 ? 0 : (k + j) % 2 ? 1 : -1; b[k] = SC || k == q ? (int)Y : (int)(k + 2) * (l & 1 ? -1 : 1); z0[k] = d[k] = k == q ? (int)Z : 5 - 2 * k; L x = a[k], y = b[k], z = z0[k]; ok = ok && fits(E) && fits((E) - z) && fits(z - (E)); } if (!ok) continue; \
  r.tick(); r.showi("a", a, N); r.showi("b", b, N); r.showi("dest before", z0, N); CALL##SC(N, name); for (int k = 0; k < N; k++) { L x = a[k], y = b[k], z = z0[k]; r.eqi(#name, d[k], (int)(E)); } } } }
ALLN(ACC, addadd, 0, z + (x + y)) ALLN(ACC, addadds, 1, z + (x + y)) ALLN(ACC, subadd, 0, z + (x - y)) ALLN(ACC, subadds, 1, z + (x - y)) ALLN(ACC, muladd, 0, z + x * y) ALLN(ACC, muladds, 1, z + x * y)
ALLN(ACC, maxadd, 0, z + std::max(x, y)) ALLN(ACC, minadd, 0, z + std::min(x, y)) ALLN(ACC, subsub, 0, z - (x - y)) ALLN(ACC, subsubs, 1, z - (x - y)) ALLN(ACC, addsub, 0, z - (x + y)) ALLN(ACC, addsubs, 1, z - (x + y))
ALLN(ACC, mulsub, 0, z - x * y) ALLN(ACC, mulsubs, 1, z - x * y) ALLN(ACC, maxsub, 0, z - std::max(x, y)) ALLN(ACC, minsub, 0, z - std::min(x, y))
template<int N> static std::vector<std::vector<int>> prod(const IV &s) { std::vector<std::vector<int>> o; L n = 1; for (int i = 0; i < N; i++) n *= s.size(); for (L k = 0; k < n; k++) { std::vector<int> v; L q = k; for (int i = 0; i < N; i++) { v.push_back(s[q % s.size()]); q /= s.size(); } o.push_back(v); } return o; }
#define MISC(N, ...) SITE(ivec##N##_unary) { const IV &a_ = A(); for (size_t i = 0; i < a_.size(); i++) for (int st = 0; st < 9; st++) { A32 int a[N], d[N]; for (int k = 0; k < N; k++) { a[k] = ln(a_, i, k, st); d[k] = 777; } r.tick(); r.showi("v", a, N); \
    if (HAVE(glm_ivec##N##_copy)) { F(glm_ivec##N##_copy)(a, d); r.eqiv("copy", d, a, N); } if (HAVE(glm_ivec##N##_zero)) { memcpy(d, a, sizeof d); F(glm_ivec##N##_zero)(d); for (int k = 0; k < N; k++) r.eqi("zero", d[k], 0); } if (HAVE(glm_ivec##N##_one)) { memcpy(d, a, sizeof d); F(glm_ivec##N##_one)(d); for (int k = 0; k < N; k++) r.eqi("one", d[k], 1); } \
    FILL##N bool mn = false; for (int k = 0; k < N; k++) mn = mn || a[k] == INT_MIN; if (!mn && HAVE(glm_ivec##N##_abs)) { F(glm_ivec##N##_abs)(a, d); for (int k = 0; k < N; k++) r.eqi("abs", d[k], a[k] < 0 ? -a[k] : a[k]); } \
    for (int lo : a_) for (int hi : a_) if (lo <= hi && HAVE(glm_ivec##N##_clamp)) { r.tick(); memcpy(d, a, sizeof d); F(glm_ivec##N##_clamp)(d, lo, hi); for (int k = 0; k < N; k++) r.eqi("clamp", d[k], a[k] < lo ? lo : a[k] > hi ? hi : a[k]); } } } \
  SITE(ivec##N##_pairs) { auto P = prod<N>(N == 2 ? IV{0, 1, -1, 2, -3, 7, 100, -1000, 12345, -20000} : N == 3 ? IV{0, 1, -3, 7, 100, -9000} : IV{0, -1, 5, 4000}); for (auto &p : P) for (auto &q : P) { A32 int a[N], b[N]; memcpy(a, p.data(), sizeof a); memcpy(b, q.data(), sizeof b); r.tick(); r.showi("a", a, N); r.showi("b", b, N); L dot = 0, d2 = 0; bool eq = true; for (int k = 0; k < N; k++) { dot += (L)a[k] * b[k]; d2 += ((L)a[k] - b[k]) * ((L)a[k] - b[k]); eq = eq && a[k] == b[k]; } \
    if (fits(d2) && HAVE(glm_ivec##N##_distance2)) r.eqi("distance2", F(glm_ivec##N##_distance2)(a, b), (int)d2); if (fits(d2) && HAVE(glm_ivec##N##_distance)) r.near("distance", F(glm_ivec##N##_distance)(a, b), R(sqrt((double)d2)), 4); PX##N } }
#define FILL23(N) if (HAVE(glm_ivec##N##_fill)) for (int s : a_) { r.tick(); memcpy(d, a, sizeof d); F(glm_ivec##N##_fill)(d, s); for (int k = 0; k < N; k++) r.eqi("fill", d[k], s); } if (HAVE(glm_ivec##N##_eq)) for (int s : a_) { bool e = true; for (int k = 0; k < N; k++) e = e && a[k] == s; r.eqi("eq", F(glm_ivec##N##_eq)(a, s), e); }
#define FILL2 FILL23(2)
#define FILL3 FILL23(3)
#define FILL4
#define PX23(N) if (fits(dot) && HAVE(glm_ivec##N##_dot)) r.eqi("dot", F(glm_ivec##N##_dot)(a, b), (int)dot); if (HAVE(glm_ivec##N##_eqv)) r.eqi("eqv", F(glm_ivec##N##_eqv)(a, b), eq);
#define PX2 PX23(2) { L c = (L)a[0] * b[1] - (L)a[1] * b[0]; if (fits(c) && HAVE(glm_ivec2_cross)) r.eqi("cross", F(glm_ivec2_cross)(a, b), (int)c); }
#define PX3 PX23(3) { L n = 0; for (int k = 0; k < 3; k++) n += (L)a[k] * a[k]; if (fits(n)) { if (HAVE(glm_ivec3_norm2)) r.eqi("norm2", F(glm_ivec3_norm2)(a), (int)n); if (HAVE(glm_ivec3_norm)) { int g = F(glm_ivec3_norm)(a); L lo = (L)floor(sqrt((double)n)), hi = (L)floor(sqrt((double)n) * (1 + 2e-7)); r.ok("norm is the truncated length", g >= lo && g <= hi); } } }
#define PX4
ALLN(MISC, 0)
SITE(convert) { const IV &a_ = A(); for (size_t i = 0; i < a_.size(); i++) for (int l : a_) { A32 int v[4], d[4]; for (int k = 0; k < 4; k++) v[k] = ln(a_, i, k, 7); r.tick(); r.showi("v", v, 4);
    if (HAVE(glm_ivec2)) { F(glm_ivec2)(v, d); r.eqiv("ivec2", d, v, 2); } if (HAVE(glm_ivec3)) { F(glm_ivec3)(v, d); r.eqiv("ivec3", d, v, 3); } if (HAVE(glm_ivec4)) { F(glm_ivec4)(v, l, d); r.eqiv("ivec4", d, v, 3); r.eqi("ivec4.w", d[3], l); } } }
int main(int c, char **v) { return cglmv_main(c, v); }
