// C08: vector predicates, reductions and component selection
// API: vec[234]_eq* vec[234]_max vec[234]_min vec[234]_isnan vec[234]_isinf vec[234]_isvalid vec[34]_hadd vec[234]_swizzle
#include "cglmv.hpp"
static const float EPSF = 1e-5f;
static const FV &AE() { static FV v; if (v.empty()) { v = {0.f, 1.f, -1.f, 1e-5f, -1e-5f, fnext(1e-5f), fprev(1e-5f), 2e-5f, 5e-6f, 1.00001f, 1.000005f, 1.00002f, fnext(1.f), 100.f, 100.00001f, INFINITY, -INFINITY, NAN, 1e-40f, FLT_MAX, 100.0005f, 100.01f, -100.f, 1e6f, 1e6f + 1, fnext(1e6f), 3.5f, 1.0004f}; } return v; }
static const FV &AM() { static FV v = {0.f, 1.f, -1.f, 2.f, -2.f, 0.5f, 1e-20f, -1e30f, INFINITY, -INFINITY, NAN, FLT_MAX, 1.0000001f}; return v; }
#define ALLN(M, ...) M(2, __VA_ARGS__) M(3, __VA_ARGS__) M(4, __VA_ARGS__)
static bool ieq(float a, float b) { return fabsf(a - b) <= EPSF; }
template<int N> static std::vector<VF<N>> alpha(const FV &a) { return product<N>(a); }
// vectors equal to a base in all lanes but the listed ones
template<int N> static std::vector<VF<N>> perturb(float base, const FV &A) { std::vector<VF<N>> o; VF<N> b; for (int k = 0; k < N; k++) b.a[k] = base; o.push_back(b); for (int k = 0; k < N; k++) for (float x : A) { VF<N> y = b; y.a[k] = x; o.push_back(y); for (int l = k + 1; l < N; l++) for (float z : A) { VF<N> w = y; w.a[l] = z; o.push_back(w); } } return o; }
#define PRED(N, ...) SITE(vec##N##_scalar_predicates) { for (float base : {0.f, 1.f, 100.f, -3.5f, 1e6f}) for (auto &p : perturb<N>(base, AE())) for (float s : AE()) { r.tick(); A32 float v[N]; memcpy(v, p.a, sizeof v); r.show("v", v, N); r.show("val", s); bool e = true, ee = true, ea = true; for (int k = 0; k < N; k++) { e = e && v[k] == s; ee = ee && ieq(v[k], s); ea = ea && ieq(v[k], v[0]); } \
    if (HAVE(glm_vec##N##_eq)) r.eqi("eq", F(glm_vec##N##_eq)(v, s), e); if (HAVE(glm_vec##N##_eq_eps)) r.eqi("eq_eps", F(glm_vec##N##_eq_eps)(v, s), ee); if (HAVE(glm_vec##N##_eq_all)) r.eqi("eq_all", F(glm_vec##N##_eq_all)(v), ea); } } \
  SITE(vec##N##_pair_predicates) { for (float base : {0.f, 1.f, 100.f, -1e6f}) { auto P = perturb<N>(base, base * base <= 1 ? FV{0.f, -0.f, 1.f, 1e-25f, 1e-5f, fnext(1e-5f), 2e-5f, 1.000005f, INFINITY, -INFINITY, NAN, -1.f} : FV{fnext(base), base * 1.000005f, base * 1.0001f, -base, base + 0.015625f, 0.f}); for (auto &p : P) for (auto &q : P) { r.tick(); A32 float a[N], b[N]; memcpy(a, p.a, sizeof a); memcpy(b, q.a, sizeof b); r.show("a", a, N); r.show("b", b, N); bool e = true, ee = true; for (int k = 0; k < N; k++) { e = e && a[k] == b[k]; ee = ee && ieq(a[k], b[k]); } \
    if (HAVE(glm_vec##N##_eqv)) r.eqi("eqv", F(glm_vec##N##_eqv)(a, b), e); if (HAVE(glm_vec##N##_eqv_eps)) r.eqi("eqv_eps", F(glm_vec##N##_eqv_eps)(a, b), ee); } } } \
  SITE(vec##N##_reductions) { for (auto &p : product<N>(AM())) { r.tick(); A32 float v[N]; memcpy(v, p.a, sizeof v); r.show("v", v, N); bool nan = false, inf = false; float mx = v[0], mn = v[0]; R s(0); for (int k = 0; k < N; k++) { nan = nan || std::isnan(v[k]); inf = inf || std::isinf(v[k]); mx = v[k] > mx ? v[k] : mx; mn = v[k] < mn ? v[k] : mn; s += R(v[k]); } \
    if (HAVE(glm_vec##N##_isnan)) r.eqi("isnan", F(glm_vec##N##_isnan)(v), nan); if (HAVE(glm_vec##N##_isinf)) r.eqi("isinf", F(glm_vec##N##_isinf)(v), inf); if (HAVE(glm_vec##N##_isvalid)) r.eqi("isvalid", F(glm_vec##N##_isvalid)(v), !nan && !inf); \
    if (!nan && HAVE(glm_vec##N##_max)) r.eqf("max", F(glm_vec##N##_max)(v), mx); if (!nan && HAVE(glm_vec##N##_min)) r.eqf("min", F(glm_vec##N##_min)(v), mn); \
    HADD##N } }
#define HADD2
#define HADD3 if (!nan && !inf && HAVE(glm_vec3_hadd)) r.near("hadd", F(glm_vec3_hadd)(v), s, 4);
#define HADD4 if (!nan && !inf && HAVE(glm_vec4_hadd)) r.near("hadd", F(glm_vec4_hadd)(v), s, 4);
ALLN(PRED, 0)
#define SWZ(N, ...) SITE(vec##N##_swizzle) { if (!HAVE(glm_vec##N##_swizzle)) return; int m = 1; for (int k = 0; k < N; k++) m *= N; for (int q = 0; q < m; q++) for (int var = 0; var < 3; var++) { r.tick(); int mask = 0, idx[N], t = q; for (int k = 0; k < N; k++) { idx[k] = t % N; t /= N; mask |= idx[k] << (2 * k); } A32 float v[4] = {1.5f, -2.f, 3e10f, 1e-20f}, d[4] = {9, 9, 9, 9}; if (var == 1) { v[0] = NAN; v[1] = 0; } if (var == 2) { v[N - 1] = INFINITY; } r.show("v", v, N); r.show("mask", mask); \
    F(glm_vec##N##_swizzle)(v, mask, d); for (int k = 0; k < N; k++) r.eqf("swizzle", d[k], v[idx[k]]); A32 float w[4]; memcpy(w, v, 16); F(glm_vec##N##_swizzle)(w, mask, w); for (int k = 0; k < N; k++) if (r.surf != "struct") r.eqf("swizzle in place", w[k], v[idx[k]]); } }
ALLN(SWZ, 0)
int main(int c, char **v) { return cglmv_main(c, v); }
