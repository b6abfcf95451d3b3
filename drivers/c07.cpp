// C07: metric vector geometry
// API: vec[234]_dot vec[234]_norm* vec[234]_distance* vec[234]_cross* vec[234]_angle vec[234]_center vec[234]_proj vec[234]_reflect vec[234]_refract vec[234]_faceforward vec[234]_ortho vec[234]_rotate* vec[234]_scale_as dot cross normalize normalize_to
#include "cglmv.hpp"
static const double EPS = FLT_EPSILON;
template<int N> static std::vector<VF<N>> dirs(const FV &s) { return product<N>(s); }
template<int N> static const std::vector<VF<N>> &VS1() {   // single-vector alphabet
  static std::vector<VF<N>> o; if (o.empty()) {
    o = product<N>(N == 4 ? FV{0.f, 1.f, -1.f, 0.5f, -2.f, 3.f} : FV{0.f, 1.f, -1.f, 0.5f, -2.f, 3.f, -0.7f, 0.1f, 100.f});
    auto u = product<N>({0.f, 1.f, -1.f});
    for (float s : {1e-3f, 3e-4f, 1e-4f, 1e-5f, 1e-6f, 5e-7f, 2e-7f, 1.1920929e-7f, 1e-7f, 5e-8f, 1e-8f, 1e-10f, 1e-15f, 1e-20f, 1e-30f, 1e4f, 1e8f, 1e15f}) for (auto &x : u) { VF<N> y; for (int k = 0; k < N; k++) y.a[k] = x.a[k] * s * (1 + 0.25f * k); o.push_back(y); }
    for (double s : {0.5, 0.96, 0.99, 0.998, 0.9998, 1.0002, 1.002, 1.01, 1.04, 2.0}) for (auto &x : u) { VF<N> y; double n = 0; for (int k = 0; k < N; k++) n += x.a[k] * x.a[k] * (k + 1.0); if (n == 0) continue; for (int k = 0; k < N; k++) y.a[k] = (float)(x.a[k] * sqrt(k + 1.0) * s / sqrt(n)); o.push_back(y); }
  } return o; }
template<int N> static const std::vector<VF<N>> &VS2() {   // pair alphabet
  static std::vector<VF<N>> o; if (o.empty()) {
    o = product<N>(N == 4 ? FV{0.f, 1.f, -0.5f, 3.f} : N == 3 ? FV{0.f, 1.f, -1.f, 0.5f, -2.f} : FV{0.f, 1.f, -1.f, 0.5f, -2.f, 3.f, -0.7f, 100.f, 1e-3f});
    { VF<N> z; memset(&z, 0, sizeof z); o.push_back(z); }
    for (float s : {1e-3f, 1e-5f, 1e-7f, 1e3f, 3e4f, 7e6f, 2e9f}) for (int m = 0; m < 8; m++) { VF<N> y; for (int k = 0; k < N; k++) y.a[k] = ((m >> (k % 3)) & 1 ? -s : s) * (k + 1); o.push_back(y); }
    for (float s : {0.99999994f, 1.0000001f}) { VF<N> y; for (int k = 0; k < N; k++) y.a[k] = k == 0 ? s : 0; o.push_back(y); VF<N> z; for (int k = 0; k < N; k++) z.a[k] = s; o.push_back(z); }
    for (float s : {1.f, -1.f}) { VF<N> y; for (int k = 0; k < N; k++) y.a[k] = s * (0.123456f + 1.234567f * k); o.push_back(y); }
  } return o; }
// almost equal, almost opposite, almost parallel and almost perpendicular pairs, besides all pairs of the alphabet
template<int N> static std::vector<std::pair<VF<N>, VF<N>>> PAIRS() { std::vector<std::pair<VF<N>, VF<N>>> o; auto &P = VS2<N>(); for (auto &p : P) for (auto &q : P) o.push_back({p, q}); int j = 0; auto B = product<N>(N == 4 ? FV{0.f, 1.f, -0.7f} : FV{0.f, 1.f, -2.f, 0.6f});
  for (auto &p : B) for (float s : {1.f, -1.f, 3.f, -0.01f}) for (int k = 0; k < N; k++) for (int e = 0; e < 6; e += 2) { VF<N> b; for (int i = 0; i < N; i++) b.a[i] = s * (p.a[i] + (i == k ? (float)NEARD[(e + j++) % 6] : 0)); o.push_back({p, b}); for (int i = 0; i < N; i++) b.a[i] = (i + 1 < N || N % 2 == 0 ? (i & 1 ? 1 : -1) * p.a[i ^ 1] : 0) * s + (i == k ? (float)NEARD[(e + j++) % 6] : 0); o.push_back({p, b}); } return o; }
template<int N> static R Dot(const float *a, const float *b) { R s(0); for (int k = 0; k < N; k++) s += R(a[k]) * R(b[k]); return s; }
template<int N> static R Norm(const float *a) { return Rsqrt(Dot<N>(a, a)); }
#define ALLN(M, ...) M(2, __VA_ARGS__) M(3, __VA_ARGS__) M(4, __VA_ARGS__)
#define FILLD(N, d) for (int k_ = 0; k_ < N; k_++) d[k_] = 12345.f
// expected v * s / |v|, zero below the epsilon
template<int N> static void scaled_to(Run &r, const char *w, const float *v, const float *d, R s) {
  R n = Norm<N>(v);
  if (fabs(n.v - EPS) < 1e-3 * EPS) return;
  for (int k = 0; k < N; k++) { if (n.v < EPS) r.eqf(w, d[k], 0.f); else r.near(w, d[k], s * R(v[k]) / R(n.v), 16, 1e-37); }
}
#define SINGLE(N, ...) SITE(vec##N##_norms) { for (auto &v : VS1<N>()) { r.tick(); A32 float a[N], d[N]; memcpy(a, v.a, sizeof a); r.show("v", a, N); R n2 = Dot<N>(a, a), n = Rsqrt(n2); bool und = n.v < 1e-16; \
  if (HAVE(glm_vec##N##_norm2)) r.near("norm2", F(glm_vec##N##_norm2)(a), n2, 16); \
  if (HAVE(glm_vec##N##_norm) && !und) r.near("norm", F(glm_vec##N##_norm)(a), R(n.v), 16); \
  if (HAVE(glm_vec##N##_normalize)) { A32 float e[N]; memcpy(e, a, sizeof e); F(glm_vec##N##_normalize)(e); scaled_to<N>(r, "normalize", a, e, R(1)); } \
  if (HAVE(glm_vec##N##_normalize_to)) { FILLD(N, d); F(glm_vec##N##_normalize_to)(a, d); scaled_to<N>(r, "normalize_to", a, d, R(1)); } \
  if (HAVE(glm_vec##N##_scale_as)) for (float s : {0.f, 1.f, 2.5f, -3.f, 1e-3f, 1e4f}) { FILLD(N, d); F(glm_vec##N##_scale_as)(a, s, d); scaled_to<N>(r, "scale_as", a, d, R(s)); } EXTRA##N } }
#define EXTRA2
#define EXTRA34(N) { R one(0); float inf = 0; for (int k = 0; k < N; k++) { one += Rabs(R(a[k])); inf = std::max(inf, fabsf(a[k])); } if (HAVE(glm_vec##N##_norm_one)) r.near("norm_one", F(glm_vec##N##_norm_one)(a), one, 8); if (HAVE(glm_vec##N##_norm_inf)) r.eqf("norm_inf", F(glm_vec##N##_norm_inf)(a), inf); }
#define EXTRA3 EXTRA34(3) if (HAVE(glm_normalize)) { A32 float e[3]; memcpy(e, a, sizeof e); F(glm_normalize)(e); scaled_to<3>(r, "glm_normalize", a, e, R(1)); } if (HAVE(glm_normalize_to)) { FILLD(3, d); F(glm_normalize_to)(a, d); scaled_to<3>(r, "glm_normalize_to", a, d, R(1)); }
#define EXTRA4 EXTRA34(4)
ALLN(SINGLE, 0)
#define PAIR(N, ...) SITE(vec##N##_pairs) { auto P = PAIRS<N>(); for (auto &pq : P) { auto &p = pq.first; auto &q = pq.second; r.tick(); A32 float a[N], b[N], d[N]; memcpy(a, p.a, sizeof a); memcpy(b, q.a, sizeof b); r.show("a", a, N); r.show("b", b, N); R ab = Dot<N>(a, b); \
  if (HAVE(glm_vec##N##_dot)) r.near("dot", F(glm_vec##N##_dot)(a, b), ab, 8); \
  R d2(0); for (int k = 0; k < N; k++) { R t = R(a[k]) - R(b[k]); d2 += t * t; } \
  if (HAVE(glm_vec##N##_distance2)) r.near("distance2", F(glm_vec##N##_distance2)(a, b), d2, 16); \
  if (HAVE(glm_vec##N##_distance)) r.near("distance", F(glm_vec##N##_distance)(a, b), Rsqrt(d2), 16); \
  if (HAVE(glm_vec##N##_reflect)) { FILLD(N, d); F(glm_vec##N##_reflect)(a, b, d); for (int k = 0; k < N; k++) if (k < 3) r.near("reflect", d[k], R(a[k]) - R(b[k]) * (R(2) * ab), 16); else r.eqf("reflect keeps w", d[k], a[k]); } \
  PEX##N } }
#define PEX2 if (HAVE(glm_vec2_cross)) r.near("cross", F(glm_vec2_cross)(a, b), R(a[0]) * R(b[1]) - R(a[1]) * R(b[0]), 8);
#define PEX4
#define PEX3 { R c[3]; for (int k = 0; k < 3; k++) c[k] = R(a[(k + 1) % 3]) * R(b[(k + 2) % 3]) - R(a[(k + 2) % 3]) * R(b[(k + 1) % 3]); \
  if (HAVE(glm_vec3_cross)) { FILLD(3, d); F(glm_vec3_cross)(a, b, d); r.nearv("cross", d, c, 3, 8); } \
  if (HAVE(glm_cross)) { FILLD(3, d); F(glm_cross)(a, b, d); r.nearv("glm_cross", d, c, 3, 8); } \
  if (HAVE(glm_dot)) r.near("glm_dot", F(glm_dot)(a, b), ab, 8); \
  double cn = sqrt(c[0].v * c[0].v + c[1].v * c[1].v + c[2].v * c[2].v), cm = sqrt(c[0].m * c[0].m + c[1].m * c[1].m + c[2].m * c[2].m); \
  if (HAVE(glm_vec3_crossn) && cn < EPS * 1e-3 && cm < EPS) { FILLD(3, d); F(glm_vec3_crossn)(a, b, d); r.ok("crossn of (near) parallel vectors is zero or finite", std::isfinite(d[0] + d[1] + d[2])); if (cm == 0) { const float z[3] = {0}; r.eqv("crossn zero", d, z, 3); } } \
  if (HAVE(glm_vec3_crossn) && cn > 2 * EPS && cn < 1e18 && cm < 1e4 * cn) { FILLD(3, d); F(glm_vec3_crossn)(a, b, d); for (int k = 0; k < 3; k++) r.near("crossn", d[k], R(c[k].v / cn, cm / cn), 32); } \
  double na = Norm<3>(a).v, nb = Norm<3>(b).v; \
  if (HAVE(glm_vec3_angle) && na > 1e-8 && nb > 1e-8) { float g = F(glm_vec3_angle)(a, b); double co = ab.v / (na * nb), e = acos(std::max(-1.0, std::min(1.0, co))), dl = 16 * 5.96e-8 * ab.m / (na * nb) + 1e-7; \
    double lo = acos(std::min(1.0, co + dl)), hi = acos(std::max(-1.0, co - dl)); r.show("angle", g); r.ok("angle matches the arc cosine", g >= lo - 1e-6 && g <= hi + 1e-6); (void)e; } \
  if (HAVE(glm_vec3_proj) && nb > 1e-8) { FILLD(3, d); F(glm_vec3_proj)(a, b, d); R t = ab / Dot<3>(b, b); for (int k = 0; k < 3; k++) r.near("proj", d[k], R(b[k]) * t, 16); } }
ALLN(PAIR, 0)
template<int N> static std::vector<VF<N>> units() { std::vector<VF<N>> o; for (auto &v : product<N>({0.f, 1.f, -1.f, 0.4f})) { double n = 0; for (float x : v.a) n += (double)x * x; if (n == 0) continue; VF<N> u; for (int k = 0; k < N; k++) u.a[k] = (float)(v.a[k] / sqrt(n)); o.push_back(u); } for (double d : NEARD) { VF<N> u; memset(&u, 0, sizeof u); u.a[0] = (float)d; u.a[1] = (float)-sqrt(1 - d * d); o.push_back(u); } return o; }
#define REFR(N, ...) SITE(vec##N##_refract) { if (!HAVE(glm_vec##N##_refract)) return; auto U = units<N>(); if (N == 4) { decltype(U) W; for (size_t i = 0; i < U.size(); i += 3) W.push_back(U[i]); for (size_t i = 0; i < 9; i++) { auto v = W[i * 5 % W.size()]; for (float &x : v.a) x = -x; W.push_back(v); } U = W; } \
  for (auto &p : U) for (auto &q : U) for (float eta : {0.5f, 1.f / 1.5f, 0.75f, 1.f, 1.33f, 1.5f, 2.4f, 0.f, 1.2f, 8.f, 0.01f, 60.f, 1.003f, 0.9997f}) { r.tick(); A32 float a[N], b[N], d[N]; memcpy(a, p.a, sizeof a); memcpy(b, q.a, sizeof b); FILLD(N, d); r.show("v", a, N); r.show("n", b, N); r.show("eta", eta); \
    bool g = F(glm_vec##N##_refract)(a, b, eta, d); R ndi = Dot<N>(b, a), eni = R(eta) * ndi, k = R(1) - R(eta) * R(eta) + eni * eni; \
    if (fabs(k.v) < 1e-5) continue; if (!r.eqi("returns whether refraction occurs", g, k.v > 0)) continue; \
    for (int i = 0; i < N; i++) { if (k.v < 0) r.eqf("total internal reflection gives zero", d[i], 0.f); else r.near("refract", d[i], R(eta) * R(a[i]) - R(b[i]) * (eni + Rsqrt(k)), 16); } } }
ALLN(REFR, 0)
// magnitudes: the pairwise functions are scale-invariant as long as the squared norms are representable
SITE(vec3_pair_scales) { auto V = product<3>({0.f, 1.f, -2.f}); for (auto &p : V) for (auto &q : V) { if (Norm<3>(p.a).v == 0 || Norm<3>(q.a).v == 0) continue; for (float sa : {1e-15f, 1e-11f, 1e-6f, 1.f, 1e6f, 1e11f, 1e15f}) for (float sb : {1e-15f, 1e-11f, 1e-6f, 1.f, 1e6f, 1e11f, 1e15f}) { r.tick(); A32 float a[3], b[3], d[3]; for (int k = 0; k < 3; k++) { a[k] = p.a[k] * sa; b[k] = q.a[k] * sb; } r.show("a", a, 3); r.show("b", b, 3);
  double na = Norm<3>(a).v, nb = Norm<3>(b).v; R ab = Dot<3>(a, b); double co = ab.v / (na * nb), dl = 16 * 5.96e-8 * ab.m / (na * nb) + 1e-7;
  if (HAVE(glm_vec3_angle)) { float g = F(glm_vec3_angle)(a, b); double lo = acos(std::min(1.0, co + dl)), hi = acos(std::max(-1.0, co - dl)); r.show("angle", g); r.ok("angle matches the arc cosine", g >= lo - 1e-6 && g <= hi + 1e-6); }
  if (HAVE(glm_vec3_distance)) { double e = 0; for (int k = 0; k < 3; k++) e += ((double)a[k] - b[k]) * ((double)a[k] - b[k]); r.near("distance", F(glm_vec3_distance)(a, b), R(sqrt(e)), 16); if (HAVE(glm_vec3_distance2)) r.near("squared distance", F(glm_vec3_distance2)(a, b), R(e), 16); }
  if (HAVE(glm_vec3_proj)) { FILLD(3, d); F(glm_vec3_proj)(a, b, d); R t = ab / Dot<3>(b, b); for (int k = 0; k < 3; k++) r.near("proj", d[k], R(b[k]) * t, 16); }
  if (HAVE(glm_vec3_center)) { FILLD(3, d); F(glm_vec3_center)(a, b, d); for (int k = 0; k < 3; k++) r.near("center", d[k], (R(a[k]) + R(b[k])) * R(0.5), 8); } } } }
// pairs that are almost parallel or almost opposite
SITE(vec3_angle_near) { if (!HAVE(glm_vec3_angle)) return; for (auto &p : product<3>({0.f, 1.f, -2.f, 0.3f})) { double np = Norm<3>(p.a).v; if (np == 0) continue; for (int ax = 0; ax < 3; ax++) for (int e = 0; e < 24; e++) for (float s : {1.f, -1.f, 1e-3f, -40.f}) { r.tick(); float dev = (float)(np * 2e-4 * pow(1.4, e)) * (e & 1 ? 1.f : -1.f);
  A32 float a[3], b[3]; for (int k = 0; k < 3; k++) { a[k] = p.a[k]; b[k] = s * (p.a[k] + (k == ax ? dev : 0.f)); } r.show("a", a, 3); r.show("b", b, 3); double na = Norm<3>(a).v, nb = Norm<3>(b).v; R ab = Dot<3>(a, b); double co = ab.v / (na * nb), dl = 12 * 5.96e-8 * ab.m / (na * nb);
  for (int sw = 0; sw < 2; sw++) { float g = sw ? F(glm_vec3_angle)(b, a) : F(glm_vec3_angle)(a, b); double lo = acos(std::min(1.0, co + dl)), hi = acos(std::max(-1.0, co - dl)); r.show("angle", g); r.ok("angle matches the arc cosine", g >= lo - 1e-6 && g <= hi + 1e-6); } } } }
SITE(vec3_faceforward) { if (!HAVE(glm_vec3_faceforward)) return; auto U = product<3>({0.f, 1.f, -2.f, 0.5f}); for (float s : {-60.f, 5e-3f, 1e-5f, 3e5f}) { U.push_back({{s, 0, 2 * s}}); U.push_back({{s, -s, 0.5f * s}}); } for (auto &n : U) for (auto &v : U) for (size_t j = 0; j < U.size(); j += 3) { r.tick(); auto &q = U[j]; A32 float a[3], b[3], c[3], d[3]; memcpy(a, n.a, 12); memcpy(b, v.a, 12); memcpy(c, q.a, 12); FILLD(3, d); r.show("n", a, 3); r.show("v", b, 3); r.show("nref", c, 3);
    F(glm_vec3_faceforward)(a, b, c, d); double s = Dot<3>(b, c).v; for (int k = 0; k < 3; k++) r.eqf("faceforward", d[k], s < 0 ? a[k] : -a[k]); } }
SITE(vec3_ortho) { if (!HAVE(glm_vec3_ortho)) return; std::vector<VF<3>> U; for (int i = 0; i <= 48; i++) for (int j = 0; j <= 96; j++) { double t = M_PI * i / 48, p = 2 * M_PI * j / 96; U.push_back({{(float)(sin(t) * cos(p)), (float)(sin(t) * sin(p)), (float)cos(t)}}); }
  for (auto &v : product<3>({0.f, 1.f, -1.f, 0.5f, -0.5f, 0.3f})) { double n = Norm<3>(v.a).v; if (n) U.push_back({{(float)(v.a[0] / n), (float)(v.a[1] / n), (float)(v.a[2] / n)}}); }
  for (auto &u : U) { r.tick(); A32 float a[3], d[3]; memcpy(a, u.a, 12); FILLD(3, d); r.show("v", a, 3); F(glm_vec3_ortho)(a, d); r.show("ortho", d, 3); double m = Norm<3>(d).v; r.ok("orthogonal", fabs(Dot<3>(a, d).v) < 1e-5); r.ok("not zero for a unit vector", m > 0.1); } }
SITE(vec3_rotate) { if (!HAVE(glm_vec3_rotate)) return; FV T = angles(); auto AX = product<3>({0.f, 1.f, -2.f}); auto V = product<3>({0.f, 1.f, -3.f, 0.1f}); for (int i = 1; i < 8; i++) { V.push_back({{50.f * (i & 1), -700.f * (i >> 1 & 1), 3e4f * (i >> 2 & 1)}}); V.push_back({{3e-3f * (i & 1), -7e-4f * (i >> 1 & 1), 2e-3f * (i >> 2 & 1)}}); } AX.push_back({{1e-3f, 2e-3f, -1e-3f}}); AX.push_back({{100, 200, -50}}); AX.push_back({{1e-9f, 0, 0}}); for (auto &x : nearunit()) AX.push_back(x);
  for (auto &x : AX) for (float t : T) for (size_t q = 0; q < V.size(); q++) { r.tick(); A32 float ax[3], v[3], d[3]; memcpy(ax, x.a, 12); memcpy(v, V[q].a, 12); memcpy(d, v, 12); r.show("v", v, 3); r.show("axis", ax, 3); r.show("angle", t);
    F(glm_vec3_rotate)(d, t, ax); double n = Norm<3>(ax).v, k[3] = {0, 0, 0}; if (n > EPS) for (int i = 0; i < 3; i++) k[i] = ax[i] / n;
    R c = Rcos(R(t, 0)), s = R(sin((double)t), 1); R kv = R(k[0]) * R(v[0]) + R(k[1]) * R(v[1]) + R(k[2]) * R(v[2]);
    for (int i = 0; i < 3; i++) { int a = (i + 1) % 3, b = (i + 2) % 3; R e = R(v[i]) * R(c.v, 1) + (R(k[a]) * R(v[b]) - R(k[b]) * R(v[a])) * s + R(k[i]) * kv * (R(1) - R(c.v, 1)); r.near("rotate", d[i], e, 16 + fabs(t)); } } }
SITE(vec2_rotate) { if (!HAVE(glm_vec2_rotate)) return; for (auto &v : product<2>(MID())) for (float t : angles()) { r.tick(); A32 float a[2], d[2]; memcpy(a, v.a, 8); FILLD(2, d); r.show("v", a, 2); r.show("angle", t); F(glm_vec2_rotate)(a, t, d); R c(cos((double)t), 1), s(sin((double)t), 1); r.near("x", d[0], R(a[0]) * c - R(a[1]) * s, 8 + fabs(t)); r.near("y", d[1], R(a[0]) * s + R(a[1]) * c, 8 + fabs(t)); } }
SITE(vec3_rotate_m) { auto V = product<3>({0.f, 1.f, -3.f, 0.1f}); V.push_back({{-40, 700, 2e4f}}); V.push_back({{2e-3f, -5e-3f, 1e-3f}}); V.push_back({{20, -30, -15}}); std::vector<std::vector<float>> M;   // columns: all triples from a small set, normalised by the function
  std::vector<VF<3>> C; for (auto &v : product<3>({0.f, 1.f, -1.f})) C.push_back(v); C.push_back({{3, 4, 0}}); C.push_back({{0.3f, -0.2f, 0.6f}}); C.push_back({{1e-3f, 2e-3f, 0}}); C.push_back({{5e-5f, 0, 1e-4f}}); C.push_back({{100, 5, -20}}); C.push_back({{-3000, 500, 200}}); C.push_back({{4, 2, 7}});
  for (size_t a = 0; a < C.size(); a++) for (size_t b = 0; b < C.size(); b++) for (size_t c = 0; c < C.size(); c += 1 + (b % 2)) { 
    A32 float m3[9], m4[16] = {0}, v[3], d[3]; memcpy(m3, C[a].a, 12); memcpy(m3 + 3, C[b].a, 12); memcpy(m3 + 6, C[c].a, 12); for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) m4[4 * i + k] = m3[3 * i + k]; m4[12] = 7; m4[13] = -8; m4[14] = 9; m4[15] = 1;
    for (size_t q = (a + b + c) % 3; q < V.size(); q += 3) { r.tick(); memcpy(v, V[q].a, 12); r.show("m", m3, 9); r.show("v", v, 3); R e[3];
      for (int i = 0; i < 3; i++) { double n = Norm<3>(m3 + 3 * i).v; if (n < EPS) continue; for (int k = 0; k < 3; k++) e[k] += R(m3[3 * i + k] / n) * R(v[i]); }
      if (HAVE(glm_vec3_rotate_m3)) { FILLD(3, d); F(glm_vec3_rotate_m3)(m3, v, d); r.nearv("rotate_m3", d, e, 3, 16); }
      if (HAVE(glm_vec3_rotate_m4)) { FILLD(3, d); F(glm_vec3_rotate_m4)(m4, v, d); r.nearv("rotate_m4", d, e, 3, 16); } } } }
int main(int c, char **v) { return cglmv_main(c, v); }
