// C18: affine products, rigid inverse, decomposition
// API: mul mul_rot inv_tr decompose decompose_rs decompose_scalev uniscaled
#include "quat.hpp"
#define FILL(d) for (float &x_ : d) x_ = 12345.f
static std::vector<FM> affs(int dense) { std::vector<FM> o = plusnear(mats(4, 4, dense), 4, 2); for (auto &m : o) { m.a[3] = m.a[7] = m.a[11] = 0; m.a[15] = 1; } return o; }
SITE(mul) { auto A = affs(60); auto G = mats(4, 4, 40); for (float s : {0.02f, -3e-3f, 30.f}) for (int i = 0; i < 4; i++) { FM m = A[7 * i + 3]; for (float &x : m.a) x *= s; m.a[15] = 1; A.push_back(m); } A.push_back(FM{}); A.back().a[15] = 1; for (auto &p : A) for (auto &q : A) { r.tick(); A32 float a[16], b[16], d[16]; memcpy(a, p.a, 64); memcpy(b, q.a, 64); r.show("m1", a, 16); r.show("m2", b, 16); if (HAVE(glm_mul)) { FILL(d); F(glm_mul)(a, b, d); near(r, "affine product", d, mulM(ld<4, 4>(a), ld<4, 4>(b))); } b[12] = b[13] = b[14] = 0; if (HAVE(glm_mul_rot)) { FILL(d); F(glm_mul_rot)(a, b, d); near(r, "product with a linear matrix", d, mulM(ld<4, 4>(a), ld<4, 4>(b))); } }
  for (auto &p : G) for (auto &q : A) { r.tick(); A32 float a[16], b[16], d[16]; memcpy(a, p.a, 64); memcpy(b, q.a, 64); r.show("m1", a, 16); r.show("m2", b, 16); if (HAVE(glm_mul)) { FILL(d); F(glm_mul)(a, b, d); near(r, "product, affine on the right", d, mulM(ld<4, 4>(a), ld<4, 4>(b))); } b[12] = b[13] = b[14] = 0; if (HAVE(glm_mul_rot)) { FILL(d); F(glm_mul_rot)(a, b, d); near(r, "product with a linear matrix", d, mulM(ld<4, 4>(a), ld<4, 4>(b))); } } }
SITE(inv_tr) { if (!HAVE(glm_inv_tr)) return; auto V = plus<3>(product<3>({0.f, 1.f, -3.f, 100.f})); for (auto &p : thin(UQ(), 2)) for (auto &v : V) { r.tick(); auto Rm = qmat3(qd(p.a)); A32 float m[16]; auto E = ext4(Rm); stf<4>(E, m); for (int k = 0; k < 3; k++) m[12 + k] = v.a[k]; r.show("m", m, 16); auto A = ld<4, 4>(m); M<4, 4> e = idM<4>(); for (int c = 0; c < 3; c++) for (int w = 0; w < 3; w++) e(c, w) = R(m[w * 4 + c]); for (int w = 0; w < 3; w++) e(3, w) = -(A(w, 0) * A(3, 0) + A(w, 1) * A(3, 1) + A(w, 2) * A(3, 2)); F(glm_inv_tr)(m); near(r, "inverse", m, e, 16); auto I = mulM(ld<4, 4>(m), A); for (int i = 0; i < 16; i++) r.near("inverse times matrix", (float)I.a[i].v, R(i / 4 == i % 4, I.a[i].m + 1), 32); } }
SITE(decompose) { auto TR = plus<3>({{{7, -8, 0.25f}}, {{0, 0, 0}}}); size_t ti = 0; auto SV = product<3>({1.f, 2.f, 0.5f, 3.f, 100.f, 1e-2f}); for (float s : {1e-3f, 2e-4f, 1e3f, 2e4f}) for (auto &v : product<3>({1.f, 2.f, 0.3f})) SV.push_back({{v.a[0] * s, v.a[1] * s, v.a[2] * s}}); for (int k = 0; k < 3; k++) for (double d : NEARD) { VF<3> v = {{1, 1, 1}}; v.a[k] += (float)d; SV.push_back(v); v = {{2, 0.5f, 3}}; v.a[k] = (float)(1 + d); SV.push_back(v); v = {{2, 2, 2}}; v.a[k] = (float)(2 + 2 * d); SV.push_back(v); } for (auto &p : thin(UQ(), 11)) for (auto &sv : SV) for (int mir = 0; mir < 8; mir++) { r.tick(); auto Rm = qmat3(qd(p.a)); A32 float m[16] = {0}, t[4], R4[16], s[3]; float sg[3]; for (int k = 0; k < 3; k++) sg[k] = sv.a[k] * (mir >> k & 1 ? -1 : 1); for (int c = 0; c < 3; c++) for (int w = 0; w < 3; w++) m[c * 4 + w] = (float)(Rm(c, w).v * sg[c]); const auto &tv = TR[ti++ % TR.size()]; memcpy(m + 12, tv.a, 12); m[15] = 1; r.show("m", m, 16); r.show("scale used", sg, 3); bool neg = (mir & 1) ^ (mir >> 1 & 1) ^ (mir >> 2 & 1);
    auto chk = [&](const char *w) { r.show("r", R4, 16); r.show("s", s, 3); for (int c = 0; c < 3; c++) { r.near("scale magnitude", fabsf(s[c]), R(fabs(sg[c])), 32); r.eqi("scale sign follows the handedness", s[c] < 0, neg); } for (int c = 0; c < 4; c++) for (int k = 0; k < 4; k++) { if (c == 3 || k == 3) r.eqf("r has no translation or projection", R4[c * 4 + k], c == k); else r.near("r * s reproduces the matrix", R4[c * 4 + k] * s[c], R(m[c * 4 + k], fabs(sg[c])), 32); } M<3, 3> q; for (int c = 0; c < 3; c++) for (int k = 0; k < 3; k++) q(c, k) = R(R4[c * 4 + k]); r.near("r is a proper rotation", (float)detM(q).v, R(1, 1), 64); (void)w; };
    if (HAVE(glm_decompose)) { FILL(t); FILL(R4); FILL(s); F(glm_decompose)(m, t, R4, s); for (int k = 0; k < 4; k++) r.eqf("translation", t[k], m[12 + k]); chk("decompose"); } if (HAVE(glm_decompose_rs)) { FILL(R4); FILL(s); F(glm_decompose_rs)(m, R4, s); chk("decompose_rs"); }
    if (HAVE(glm_decompose_scalev)) { FILL(s); F(glm_decompose_scalev)(m, s); for (int k = 0; k < 3; k++) r.near("scale vector", s[k], R(fabs(sg[k])), 32); }
    if (HAVE(glm_uniscaled) ) { double a = sv.a[0], b = sv.a[1], c = sv.a[2]; bool g = F(glm_uniscaled)(m); if (a == b && b == c) { if (a <= 3 && a > 0.1) r.eqi("uniformly scaled", g, 1); } else if (fabs(a - b) > 1e-3 * (a + b) || fabs(b - c) > 1e-3 * (b + c)) r.eqi("not uniformly scaled", g, 0); } } }
int main(int c, char **v) { return cglmv_main(c, v); }
