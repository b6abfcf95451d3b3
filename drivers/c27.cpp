// C27: spheres
// API: sphere_*
#include "ref.hpp"
#define FILL(d) for (float &x_ : d) x_ = 12345.f
static std::vector<VF<4>> balls(bool more) { std::vector<VF<4>> o; auto C = more ? product<3>({0.f, 1.f, -2.f, 3.f, 0.5f}) : product<3>({0.f, 3.f, -4.f, 0.5f}); for (auto &c : C) for (float r : {0.f, 0.5f, 1.f, 2.5f, 5.f}) o.push_back({{c.a[0], c.a[1], c.a[2], r}}); size_t n = o.size(); for (float s : {1.f / 64, 1.f / 2048, 64.f, 4096.f, 8.f, 262144.f, 1.f / 65536, -16.f, -0.02f, -300.f, -6e4f}) for (size_t i = 0; i < n; i += more ? 7 : 11) { auto b = o[i]; for (float &x : b.a) x *= s; b.a[3] = fabsf(b.a[3]); o.push_back(b); } return o; }
SITE(radii) { if (!HAVE(glm_sphere_radii)) return; for (auto &b : balls(true)) for (float s : {1.f, 1e10f, -1.f}) { r.tick(); A32 float a[4]; for (int k = 0; k < 4; k++) a[k] = b.a[k] * s; r.show("sphere", a, 4); r.eqf("radius", F(glm_sphere_radii)(a), a[3]); } }
SITE(pairs) { for (auto &x : balls(true)) for (auto &y : balls(false)) { r.tick(); A32 float a[4], b[4], d[4]; memcpy(a, x.a, 16); memcpy(b, y.a, 16); r.show("s1", a, 4); r.show("s2", b, 4); double d2 = 0; for (int k = 0; k < 3; k++) d2 += ((double)a[k] - b[k]) * ((double)a[k] - b[k]);
    bool exact = true; for (int k = 0; k < 4; k++) for (float v : {a[k], b[k]}) exact &= v * 2 == floorf(v * 2) && fabsf(v) <= 10; auto clear = [&](double l) { return exact || fabs(d2 - l * l) > 1e-6 * l * l; };   // rounding decides other touching pairs
    if (HAVE(glm_sphere_sphere) && clear((double)a[3] + b[3])) r.eqi("spheres touch", F(glm_sphere_sphere)(a, b), d2 <= ((double)a[3] + b[3]) * ((double)a[3] + b[3]));
    if (HAVE(glm_sphere_point) && clear(a[3])) r.eqi("point inside", F(glm_sphere_point)(a, b), d2 <= (double)a[3] * a[3]);
    if (HAVE(glm_sphere_merge)) { FILL(d); F(glm_sphere_merge)(a, b, d); r.show("merged", d, 4); double dist = sqrt(d2), tol = 1e-5 * (dist + a[3] + b[3] + fabs(a[0]) + fabs(a[1]) + fabs(a[2]) + fabs(b[0]) + fabs(b[1]) + fabs(b[2])); for (auto *s : {a, b}) { double e = 0; for (int k = 0; k < 3; k++) e += ((double)s[k] - d[k]) * ((double)s[k] - d[k]); r.ok("merged sphere contains both", sqrt(e) + s[3] <= d[3] + tol); } r.ok("merged sphere is not larger than distance plus radii", d[3] <= dist + a[3] + b[3] + tol); } } }
// almost touching, almost concentric and almost equal spheres
SITE(near_pairs) { int q = 0; auto U = nearunit(); for (auto &x : balls(false)) for (size_t ui = 0; ui < U.size(); ui += 10) for (float r2 : {0.f, 1.f, 0.3f, 7.f}) for (int e = 0; e < 6; e++) for (int kind = 0; kind < 3; kind++) { A32 float a[4], b[4], d[4]; memcpy(a, x.a, 16); double un = 0; for (int k = 0; k < 3; k++) un += (double)U[ui].a[k] * U[ui].a[k]; un = sqrt(un); const double R1 = a[3], S = R1 > 0 ? R1 : 1; b[3] = (float)(kind == 2 ? R1 : r2 * S); double l = kind == 0 ? (R1 + b[3]) * (1 + NEARD[e]) : kind == 1 ? fabs(R1 - b[3]) * (1 + NEARD[e]) : S * fabs(NEARD[e]); if (kind == 2) b[3] *= (float)(1 + NEARD[(e + q++) % 6]); for (int k = 0; k < 3; k++) b[k] = (float)(a[k] + U[ui].a[k] / un * l); r.tick(); r.show("s1", a, 4); r.show("s2", b, 4);
    double d2 = 0, cm = 0; for (int k = 0; k < 3; k++) { double v = (double)a[k] - b[k]; d2 += v * v; cm += (fabs(a[k]) + fabs(b[k])) * fabs(v); } auto clear = [&](double z) { return fabs(d2 - z * z) > 2e-6 * (z * z + d2 + cm); }; double sum = (double)a[3] + b[3];
    if (HAVE(glm_sphere_sphere) && clear(sum)) { r.eqi("spheres touch", F(glm_sphere_sphere)(a, b), d2 <= sum * sum); r.eqi("spheres touch, exchanged", F(glm_sphere_sphere)(b, a), d2 <= sum * sum); }
    if (HAVE(glm_sphere_point) && clear(a[3])) r.eqi("point inside", F(glm_sphere_point)(a, b), d2 <= (double)a[3] * a[3]);
    if (HAVE(glm_sphere_merge)) { FILL(d); F(glm_sphere_merge)(a, b, d); r.show("merged", d, 4); double dist = sqrt(d2), tol = 1e-5 * (dist + a[3] + b[3] + fabs(a[0]) + fabs(a[1]) + fabs(a[2]) + fabs(b[0]) + fabs(b[1]) + fabs(b[2])); for (auto *s : {a, b}) { double v = 0; for (int k = 0; k < 3; k++) v += ((double)s[k] - d[k]) * ((double)s[k] - d[k]); r.ok("merged sphere contains both", sqrt(v) + s[3] <= d[3] + tol); } r.ok("merged sphere is not larger than distance plus radii", d[3] <= dist + a[3] + b[3] + tol); } } }
SITE(transform) { if (!HAVE(glm_sphere_transform)) return; auto MM = plusnear(mats(4, 4, 60), 4); auto B = balls(false); for (auto &mm : MM) for (auto &x : B) { r.tick(); A32 float m[16], a[4], d[4]; memcpy(m, mm.a, 64); memcpy(a, x.a, 16); FILL(d); r.show("sphere", a, 4); r.show("m", m, 16); F(glm_sphere_transform)(a, m, d); for (int w = 0; w < 3; w++) { R e(m[12 + w]); for (int j = 0; j < 3; j++) e += R(m[j * 4 + w]) * R(a[j]); r.near("center", d[w], e, 8); } r.eqf("radius kept", d[3], a[3]); } }
int main(int c, char **v) { return cglmv_main(c, v); }
