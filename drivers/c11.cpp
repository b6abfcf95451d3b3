// C11: non-square matrices
// API: mat2x3_* mat2x4_* mat3x2_* mat3x4_* mat4x2_* mat4x3_*
#include "ref.hpp"
static std::vector<FM> moved(int C, int W) { auto o = mats(C, W, 200); FM s; const FV &A = RICH(); for (size_t k = 0; k < A.size(); k++) { for (int i = 0; i < 16; i++) s.a[i] = A[(k + i * 7) % A.size()]; o.push_back(s); } return o; }
#define FILLD(N, d) for (int k_ = 0; k_ < N; k_++) d[k_] = 12345.f
// matCxW has C columns of W rows
#define ALLD(X) X(2, 3) X(2, 4) X(3, 2) X(3, 4) X(4, 2) X(4, 3)
#define NS(C, W) \
SITE(mat##C##x##W##_mul) { if (!HAVE(glm_mat##C##x##W##_mul)) return; auto A = mats(C, W, 60), B = mats(W, C, 60); for (auto &p : A) for (auto &q : B) { r.tick(); A32 float a[16], b[16], d[16]; memcpy(a, p.a, 64); memcpy(b, q.a, 64); FILLD(16, d); r.show("m1", a, C * W); r.show("m2", b, C * W); \
  F(glm_mat##C##x##W##_mul)(a, b, d); near(r, "m1*m2", d, mulM(ld<C, W>(a), ld<W, C>(b))); for (int k = W * W; k < 16; k++) r.eqf("nothing past the result", d[k], 12345.f); } } \
SITE(mat##C##x##W##_mulv) { if (!HAVE(glm_mat##C##x##W##_mulv)) return; auto A = mats(C, W, 40); auto V = plus<C>(product<C>(C == 4 ? FV{0.f, 1.f, -2.f, 0.3f, 0.5f, -1.f} : (C == 3 ? FV{0.f, 1.f, -2.f, 0.3f, 100.f, 1e-3f, 0.5f, -1.f, 7.f, 3e4f, -1e-5f} : FV{0.f, 1.f, -1.f, 2.f, -2.f, 0.5f, -0.5f, 0.3f, 0.25f, 3.f, -7.f, 10.f, 100.f, -1e3f, 1e-3f, -1e-5f, 3e4f, 1e6f}))); for (auto &p : A) for (auto &q : V) { r.tick(); A32 float a[16], b[4], d[4]; memcpy(a, p.a, 64); memcpy(b, q.a, sizeof(q)); FILLD(4, d); r.show("m", a, C * W); r.show("v", b, C); \
  F(glm_mat##C##x##W##_mulv)(a, b, d); near(r, "m*v", d, mulM(ld<C, W>(a), ld<1, C>(b))); for (int k = W; k < 4; k++) r.eqf("nothing past the result", d[k], 12345.f); } } \
SITE(mat##C##x##W##_rest) { for (auto &p : moved(C, W)) for (float s : {0.f, 1.f, -1.f, 2.f, 0.5f, -0.3f, 100.f, 1e-3f, 1e20f, -6.f, 20.f, -4000.f}) { r.tick(); A32 float a[16], d[16], t[16]; memcpy(a, p.a, 64); r.show("m", a, C * W); r.show("s", s); \
  if (HAVE(glm_mat##C##x##W##_scale)) { memcpy(d, a, 64); F(glm_mat##C##x##W##_scale)(d, s); for (int k = 0; k < C * W; k++) r.eqf("scale", d[k], a[k] * s); } \
  if (HAVE(glm_mat##C##x##W##_transpose)) { FILLD(16, d); F(glm_mat##C##x##W##_transpose)(a, d); for (int c = 0; c < C; c++) for (int w = 0; w < W; w++) r.same("transpose", d[w * C + c], a[c * W + w]); for (int k = C * W; k < 16; k++) r.eqf("nothing past the result", d[k], 12345.f); \
    if (HAVE(glm_mat##W##x##C##_transpose)) { FILLD(16, t); F(glm_mat##W##x##C##_transpose)(d, t); r.samev("transposing twice", t, a, C * W); } } \
  if (HAVE(glm_mat##C##x##W##_copy)) { FILLD(16, d); F(glm_mat##C##x##W##_copy)(a, d); r.samev("copy", d, a, C * W); for (int k = C * W; k < 16; k++) r.eqf("nothing past the result", d[k], 12345.f); } \
  if (HAVE(glm_mat##C##x##W##_make)) { FILLD(16, d); F(glm_mat##C##x##W##_make)(a, d); r.samev("make", d, a, C * W); for (int k = C * W; k < 16; k++) r.eqf("nothing past the result", d[k], 12345.f); } \
  if (HAVE(glm_mat##C##x##W##_zero)) { FILLD(16, d); F(glm_mat##C##x##W##_zero)(d); for (int k = 0; k < 16; k++) r.eqf("zero", d[k], k < C * W ? 0.f : 12345.f); } } }
ALLD(NS)
// the product with the square identity-like embeddings agrees with the square product
SITE(embedding) { (void)r; auto A = mats(4, 2, 20), B = mats(2, 4, 20); for (auto &p : A) for (auto &q : B) { r.tick(); A32 float a[16], b[16], d[16], v[4] = {1, 2, -3, 0.5f}, x[4], y[4], z[4]; memcpy(a, p.a, 64); memcpy(b, q.a, 64); r.show("m1", a, 8); r.show("m2", b, 8); if (!HAVE(glm_mat4x2_mul) || !HAVE(glm_mat2x4_mulv)) return;
    F(glm_mat4x2_mul)(a, b, d); F(glm_mat2x4_mulv)(b, v, x); F(glm_mat4x2_mulv)(a, x, y); auto e = mulM(mulM(ld<4, 2>(a), ld<2, 4>(b)), ld<1, 2>(v)); r.nearv("m1*(m2*v)", y, e.a, 2, 24); for (int i = 0; i < 2; i++) z[i] = d[i] * v[0] + d[2 + i] * v[1]; r.nearv("(m1*m2)*v", z, e.a, 2, 24); } }
int main(int c, char **v) { return cglmv_main(c, v); }
