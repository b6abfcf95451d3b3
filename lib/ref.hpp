// Reference linear algebra on R (value + magnitude), column-major like the library.
#pragma once
#include "cglmv.hpp"
template<int C, int W> struct M {   // C columns of W rows
  R a[C * W];
  R &operator()(int c, int w) { return a[c * W + w]; }
  const R &operator()(int c, int w) const { return a[c * W + w]; }
};
template<int C, int W> static M<C, W> ld(const float *p) { M<C, W> m; for (int i = 0; i < C * W; i++) m.a[i] = R(p[i]); return m; }
template<int C, int W> static M<C, W> zeroM() { M<C, W> m; for (auto &x : m.a) x = R(0); return m; }
template<int N> static M<N, N> idM() { auto m = zeroM<N, N>(); for (int i = 0; i < N; i++) m(i, i) = R(1); return m; }
// (K columns, W rows) x (C columns, K rows)
template<int K, int W, int C> static M<C, W> mulM(const M<K, W> &A, const M<C, K> &B) { M<C, W> o; for (int c = 0; c < C; c++) for (int w = 0; w < W; w++) { R s(0); for (int k = 0; k < K; k++) s += A(k, w) * B(c, k); o(c, w) = s; } return o; }
template<int C, int W> static M<W, C> trM(const M<C, W> &A) { M<W, C> o; for (int c = 0; c < C; c++) for (int w = 0; w < W; w++) o(w, c) = A(c, w); return o; }
template<int N> static R detM(const M<N, N> &A) { R s(0); for (int k = 0; k < N; k++) { M<N - 1, N - 1> m; for (int c = 0, q = 0; c < N; c++) if (c != k) { for (int w = 1; w < N; w++) m(q, w - 1) = A(c, w); q++; } R t = A(k, 0) * detM(m); if (k & 1) s -= t; else s += t; } return s; }
template<> R detM<1>(const M<1, 1> &A) { return A.a[0]; }
template<int N> static M<N, N> adjM(const M<N, N> &A) { M<N, N> o; for (int c = 0; c < N; c++) for (int w = 0; w < N; w++) { M<N - 1, N - 1> m; for (int x = 0, q = 0; x < N; x++) if (x != c) { for (int y = 0, p = 0; y < N; y++) if (y != w) m(q, p++) = A(x, y); q++; } R t = detM(m); o(w, c) = (c + w) & 1 ? -t : t; } return o; }
template<int N> static M<N, N> invM(const M<N, N> &A) { R d = detM(A); auto o = adjM(A); for (auto &x : o.a) x = x / d; return o; }
// forget accumulated magnitude: treat the values as exact inputs
template<int C, int W> static M<C, W> exactM(M<C, W> m) { for (auto &x : m.a) x = R(x.v); return m; }
template<int C, int W> static void near(Run &r, const char *w, const float *g, const M<C, W> &e, double K = 16) { r.nearv(w, g, e.a, C * W, K); }
static M<4, 4> transM(const float *v) { auto m = idM<4>(); for (int i = 0; i < 3; i++) m(3, i) = R(v[i]); return m; }
static M<4, 4> scaleM(const float *v) { auto m = idM<4>(); for (int i = 0; i < 3; i++) m(i, i) = R(v[i]); return m; }
// right-handed rotation by t about the axis (any nonzero length); K: rounding head-room of the angle
static M<3, 3> rot3M(double t, const double *ax) {
  double n = sqrt(ax[0] * ax[0] + ax[1] * ax[1] + ax[2] * ax[2]), k[3] = {0, 0, 0}; if (n > 0) for (int i = 0; i < 3; i++) k[i] = ax[i] / n;
  double c = cos(t), s = sin(t); M<3, 3> m;
  for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++) { double x = k[i] * k[j] * (1 - c) + (i == j ? c : 0); m(j, i) = R(x, 1); }
  m(0, 1).v += k[2] * s; m(1, 0).v -= k[2] * s; m(0, 2).v -= k[1] * s; m(2, 0).v += k[1] * s; m(1, 2).v += k[0] * s; m(2, 1).v -= k[0] * s;
  return m;
}
static M<3, 3> rot3M(double t, const float *ax) { double a[3] = {ax[0], ax[1], ax[2]}; return rot3M(t, a); }
static M<4, 4> ext4(const M<3, 3> &m) { auto o = idM<4>(); for (int c = 0; c < 3; c++) for (int w = 0; w < 3; w++) o(c, w) = m(c, w); return o; }
static M<4, 4> rotM(double t, const float *ax) { return ext4(rot3M(t, ax)); }
template<int N> static void stf(const M<N, N> &m, float *o) { for (int i = 0; i < N * N; i++) o[i] = (float)m.a[i].v; }
// ---------------------------------------------------------------- matrix alphabets
struct FM { float a[16]; };
// deterministic dense values (no randomness: a fixed low-discrepancy sequence)
static inline float dv(int k) { double x = fmod(0.5 + (k + 1) * 0.61803398874989485, 1.0); return (float)(4 * x - 2); }
// every elementary matrix (single nonzero entry) for a bilinear operation, plus dense, permutation-like, singular and scaled matrices
static std::vector<FM> mats(int C, int W, int dense = 24) {
  std::vector<FM> o; int n = C * W; auto add = [&](std::function<float(int, int)> f) { FM m; memset(&m, 0, sizeof m); for (int c = 0; c < C; c++) for (int w = 0; w < W; w++) m.a[c * W + w] = f(c, w); o.push_back(m); };
  for (int k = 0; k < n; k++) for (float s : {1.f, -0.7f}) add([&](int c, int w) { return c * W + w == k ? s : 0.f; });
  add([](int, int) { return 0.f; }); add([](int c, int w) { return c == w ? 1.f : 0.f; }); add([](int c, int w) { return (float)(c * 4 + w + 1); }); add([](int c, int w) { return (float)((c + 1) * (w + 2)); });
  add([](int c, int w) { return c == w ? 2.f : c < w ? 0.5f : 0.f; }); add([](int c, int w) { return c == w ? -1.f : c > w ? 3.f : 0.f; }); add([](int, int) { return 1.f; }); add([](int c, int w) { return c == w ? 1e-3f : 0.f; });
  for (int d = 0; d < dense; d++) { static const float S[12] = {1, 1, 30, 1, 1e-3f, 1e4f, 1, 0, 400, 1, 1e-6f, 3e6f}; float s = S[d % 12]; add([&](int c, int w) { int k = c * W + w; return (s ? s : (float)pow(10.0, (k * 5 + d) % 10 - 4)) * dv(d * 37 + k); }); }
  return o;
}
// matrices close to, but not, a special one: identity, a rotation (rigid, with a translation), a uniform scale, a diagonal, a symmetric, a singular or an affine matrix
static std::vector<FM> nearmats(int N) {
  std::vector<FM> o; std::vector<FM> base; auto mk = [&](std::function<double(int, int)> f) { FM m; memset(&m, 0, sizeof m); for (int c = 0; c < N; c++) for (int w = 0; w < N; w++) m.a[c * N + w] = (float)f(c, w); return m; };
  auto id = mk([](int c, int w) { return c == w; }); base.push_back(id);
  { const double ax[3] = {1, -2, 2}; auto m = rot3M(0.7, ax); base.push_back(N == 2 ? mk([](int c, int w) { return c == w ? cos(0.7) : c < w ? sin(0.7) : -sin(0.7); }) : mk([&](int c, int w) { return c < 3 && w < 3 ? m(c, w).v : c == w ? 1 : c == 3 ? 3.0 - 2.5 * w : 0; })); }
  base.push_back(mk([&](int c, int w) { return c == N - 1 && N > 2 ? (w == c ? 1 : 2 + w) : c == w ? 2.5 : 0; })); // uniform scale and a translation
  base.push_back(mk([&](int c, int w) { return c == w ? -1.5 * (c + 1) : 0.3 * (c + w); }));                     // symmetric
  base.push_back(mk([&](int c, int w) { return c == N - 1 ? w * 0.7 - 1 : 1 + ((c * 3 + w * 5) % 7) * 0.4; }));
  for (size_t b = 0; b < base.size(); b++) for (int k = 0; k < N * N; k++) for (int d = 0; d < 2; d++) { FM m = base[b]; m.a[k] += (float)NEARD[(k + b + 3 * d) % 6]; o.push_back(m); }
  for (size_t b = 0; b < 3; b++) for (double d : NEARD) { FM m = base[b]; for (int k = 0; k < N * N; k++) if (N < 4 || k % 4 < 3) m.a[k] *= (float)(1 + d); o.push_back(m); m = base[b]; for (int w = 0; w < std::min(N, 3); w++) m.a[1 % N * N + w] *= (float)(1 + d); o.push_back(m); }
  for (double d : NEARD) { FM m = base[4]; for (int w = 0; w < N; w++) m.a[w] = m.a[N * (N - 1) + w] * 2 + (w == N - 2 ? (float)d : 0); o.push_back(m); }
  return o;
}
static std::vector<FM> plusnear(std::vector<FM> v, int N, int step = 1) { auto n = nearmats(N); for (size_t i = 0; i < n.size(); i += step) v.push_back(n[i]); return v; }
