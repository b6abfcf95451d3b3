// C29: curves
// API: bezier hermite decasteljau smc mat4_rmc vec4_cubic
#include "ref.hpp"
static const float BM[16] = {-1, 3, -3, 1, 3, -6, 3, 0, -3, 3, 0, 0, 1, 0, 0, 0}, HM[16] = {2, -3, 0, 1, -2, 3, 0, 0, 1, -2, 1, 0, 1, -1, 0, 0};
static FV params() { FV o; for (int i = -4; i <= 20; i++) o.push_back(i / 16.f); for (float x : {0.1f, 0.3f, 0.7f, 0.9f, 1e-3f, 0.999f, 2.f, -1.f, -5.f, 8.f, 70.f, 4e-3f, 0.996f, 1.004f, -2e-4f, 0.9997f, 3e-4f, 0.502f, 3e-5f, -6e-5f, 4e-6f, 0.99995f, 1.00003f}) o.push_back(x); return o; }
SITE(poly) { auto P = plus<4>(product<4>({0.f, 1.f, -2.f, 3.7f, 100.f, 0.4f})); { auto W = product<4>({0.f, 1.f, 0.4f, -7.f, 5000.f, 0.004f, -60.f, -5e-5f}); P.insert(P.end(), W.begin(), W.end()); } for (auto &p : P) for (float s : params()) { r.tick(); R S(s), X = R(1) - S; r.show("s", s); r.show("p0,(c0|t0),(c1|t1),p1", p.a, 4); R a(p.a[0]), b(p.a[1]), c(p.a[2]), d(p.a[3]);
    if (HAVE(glm_bezier)) { R e = X * X * X * a + R(3) * X * X * S * b + R(3) * X * S * S * c + S * S * S * d; double m = (fabs(s) + 1) * (fabs(s) + 1) * (fabs(s) + 1) * (fabs(p.a[0]) + 3 * fabs(p.a[1]) + 3 * fabs(p.a[2]) + fabs(p.a[3])); float g = F(glm_bezier)(s, p.a[0], p.a[1], p.a[2], p.a[3]); r.near("cubic Bezier", g, R(e.v, m), 16); if (s == 0) r.near("starts at p0", g, a, 2); if (s == 1) r.near("ends at p1", g, R(p.a[3], fabs(p.a[0]) + fabs(p.a[3])), 2); }
    if (HAVE(glm_hermite)) { R s2 = S * S, s3 = s2 * S; R h0 = R(2) * s3 - R(3) * s2 + R(1), h1 = R(3) * s2 - R(2) * s3, g0 = s3 - R(2) * s2 + S, g1 = s3 - s2; R e = h0 * a + g0 * b + g1 * c + h1 * d; float g = F(glm_hermite)(s, p.a[0], p.a[1], p.a[2], p.a[3]); r.near("cubic Hermite", g, e, 16); }
    if (HAVE(glm_smc)) { A32 float m[16], v[4]; double S3[4] = {(double)s * s * s, (double)s * s, s, 1}; for (int w = 0; w < 2; w++) { memcpy(m, w ? HM : BM, 64); if (w) { float z[4] = {p.a[0], p.a[3], p.a[1], p.a[2]}; memcpy(v, z, 16); } else memcpy(v, p.a, 16); R e(0); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) e += R(S3[i]) * R(m[j * 4 + i]) * R(v[j]); r.near(w ? "matrix form of Hermite" : "matrix form of Bezier", F(glm_smc)(s, m, v), e, 16);
        if (w && HAVE(glm_hermite)) r.near("matrix form agrees with the function", F(glm_smc)(s, m, v), R(F(glm_hermite)(s, p.a[0], p.a[1], p.a[2], p.a[3]), e.m), 32); } } } }
SITE(smc) { if (!HAVE(glm_smc)) return; auto MM = plusnear(mats(4, 4, 40), 4, 5); for (int w = 0; w < 2; w++) for (int k = 0; k < 16; k++) { FM m; memcpy(m.a, w ? HM : BM, 64); m.a[k] += (float)NEARD[k % 6]; MM.push_back(m); } for (auto &mm : MM) for (auto &p : plus<4>(product<4>({0.f, 1.f, -2.f}))) for (float s : {0.f, 1.f, 0.25f, -0.5f, 2.f, -7.f, 60.f, 0.997f, 3e-3f}) { r.tick(); A32 float m[16], v[4]; memcpy(m, mm.a, 64); memcpy(v, p.a, 16); double S3[4] = {(double)s * s * s, (double)s * s, s, 1}; R e(0); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) e += R(S3[i]) * R(m[j * 4 + i]) * R(v[j]); r.show("s", s); r.show("m", m, 16); r.show("c", v, 4); r.near("s^T m c", F(glm_smc)(s, m, v), e, 16); } }
static double bez(double s, const float *p) { double x = 1 - s; return x * x * x * p[0] + 3 * x * x * s * p[1] + 3 * x * s * s * p[2] + s * s * s * p[3]; }
SITE(inverse) { if (!HAVE(glm_decasteljau)) return; for (float c0 : {0.f, 0.1f, 0.25f, 0.42f, 0.58f, 0.75f, 1.f}) for (float c1 : {0.f, 0.1f, 0.25f, 0.42f, 0.58f, 0.75f, 1.f}) for (auto &fr : std::vector<std::pair<float, float>>{{0, 1}, {-3, 5}, {10, 10.5f}, {0, 1000}, {-0.01f, 0.01f}, {1, 2}, {0.3f, 0.8f}, {60, 64}, {-5, -2}, {-1, 0}, {0.002f, 0.006f}}) for (int i = -3; i <= 67; i++) { r.tick(); float p[4] = {fr.first, fr.first + c0 * (fr.second - fr.first), fr.first + c1 * (fr.second - fr.first), fr.second}; float w = (float)(fr.first + (double)(fr.second - fr.first) * i / 64); if (i == 66) w = fr.first + (fr.second - fr.first) * 1e-4f; if (i == 67) w = fr.first + (fr.second - fr.first) * 0.9997f; r.show("control points", p, 4); r.show("value", w); float t = F(glm_decasteljau)(w, p[0], p[1], p[2], p[3]); r.show("parameter", t);
    if (w <= p[0]) r.eqf("at or before the start", t, 0); else if (w >= p[3]) r.eqf("at or after the end", t, 1); else { double sc = fabs(p[0]) + fabs(p[3]); r.ok("parameter in range", t >= 0 && t <= 1); r.ok("curve value at the parameter is the requested value", fabs(bez(t, p) - w) <= 2e-6 * sc + 4e-6 * (p[3] - p[0])); } } }
int main(int c, char **v) { return cglmv_main(c, v); }
