// C14: quaternion and matrix forms of a rotation agree
// API: quat_mat4 quat_mat4t quat_mat3 quat_mat3t mat4_quat mat3_quat quat_look quat_for quat_forp quat_from_vecs quat_rotate quat_rotate_at quat_rotate_atm
#include "quat.hpp"
#define FILL(d) for (float &x_ : d) x_ = 12345.f
SITE(quat_to_mat) { std::vector<QF> A = UQ(); for (auto &v : product<4>({0.f, 1.f, -1.f, 0.5f, -2.f, 3.f})) A.push_back({{v.a[0], v.a[1], v.a[2], v.a[3]}}); for (float s : {1e-3f, 1e3f, 0.99f, 1.01f}) for (auto &q : thin(UQ(), 7)) A.push_back({{q.a[0] * s, q.a[1] * s, q.a[2] * s, q.a[3] * s}}); for (auto &q : nearunitq(5)) A.push_back(q);
  for (auto &p : A) { r.tick(); A32 float q[4], m[16], n[9]; memcpy(q, p.a, 16); r.show("q", q, 4); auto e = qn(qd(q)) > 0 ? qmat3(qd(q)) : idM<3>(); auto et = trM(e); auto E = ext4(e), Et = ext4(et);
    if (HAVE(glm_quat_mat4)) { FILL(m); F(glm_quat_mat4)(q, m); near(r, "mat4", m, E, 8); } if (HAVE(glm_quat_mat4t)) { FILL(m); F(glm_quat_mat4t)(q, m); near(r, "mat4t", m, Et, 8); }
    if (HAVE(glm_quat_mat3)) { FILL(n); F(glm_quat_mat3)(q, n); near(r, "mat3", n, e, 8); } if (HAVE(glm_quat_mat3t)) { FILL(n); F(glm_quat_mat3t)(q, n); near(r, "mat3t", n, et, 8); } } }
SITE(mat_to_quat) { FV T = angles(24, false); for (float b : {(float)(2 * M_PI / 3), (float)M_PI, (float)(M_PI / 2), 0.f}) for (int k = -20; k <= 20; k++) T.push_back(b + k * 1e-4f); auto AX = AXES(); for (int i = 0; i < 60; i++) AX.push_back({{dv(3 * i), dv(3 * i + 1), dv(3 * i + 2)}});
  for (auto &x : AX) for (float t : T) { r.tick(); auto e = rot3M(t, x.a); A32 float m[16] = {0}, n[9], q[4]; for (int c = 0; c < 3; c++) for (int w = 0; w < 3; w++) m[c * 4 + w] = n[c * 3 + w] = (float)e(c, w).v; m[15] = 1; m[12] = 5; m[13] = -6; r.show("axis", x.a, 3); r.show("angle", t); r.show("m", n, 9); Q Eq = qaxis(t, x.a[0], x.a[1], x.a[2]);
    if (HAVE(glm_mat4_quat)) { FILL(q); F(glm_mat4_quat)(m, q); r.show("q", q, 4); r.ok("mat4_quat gives the same rotation", qsame(q, Eq, 2e-6)); }
    if (HAVE(glm_mat3_quat)) { FILL(q); F(glm_mat3_quat)(n, q); r.show("q", q, 4); r.ok("mat3_quat gives the same rotation", qsame(q, Eq, 2e-6)); } } }
SITE(look) { if (!HAVE(glm_quat_look)) return; auto V = plus<3>(product<3>({0.f, 1.f, -3.f, 10.f})); std::vector<QF> A = thin(UQ(), 3); for (auto &q : nearunitq(31)) A.push_back(q); for (float s : {1e-3f, 0.1f, 0.99f, 2.f, 20.f, 1e3f}) for (auto &q : thin(UQ(), 41)) A.push_back({{q.a[0] * s, q.a[1] * s, q.a[2] * s, q.a[3] * s}}); A.push_back({{0, 0, 0, 0}}); for (auto &p : A) for (auto &v : V) { r.tick(); A32 float q[4], e[3], m[16]; memcpy(q, p.a, 16); memcpy(e, v.a, 12); FILL(m); r.show("ori", q, 4); r.show("eye", e, 3); F(glm_quat_look)(e, q, m); float ne[3] = {-e[0], -e[1], -e[2]}; auto E = mulM(ext4(trM(qn(qd(q)) > 0 ? qmat3(qd(q)) : idM<3>())), transM(ne)); near(r, "view matrix", m, E, 16); } }
static void check_for(Run &r, const float *dir, const float *up, const float *q) { double n = sqrt((double)dir[0] * dir[0] + (double)dir[1] * dir[1] + (double)dir[2] * dir[2]), un = sqrt((double)up[0] * up[0] + (double)up[1] * up[1] + (double)up[2] * up[2]); double z[3] = {0, 0, -1}, x[3] = {1, 0, 0}, y[3] = {0, 1, 0}, o[3]; r.show("q", q, 4);
  r.ok("unit result", fabs(qn(qd(q)) - 1) < 1e-5); qrot(qd(q), z, o); for (int k = 0; k < 3; k++) r.near("-Z is turned to the direction", (float)o[k], R(dir[k] / n, 1), 64); qrot(qd(q), x, o); r.ok("X is perpendicular to up", fabs(o[0] * up[0] + o[1] * up[1] + o[2] * up[2]) < un * std::max(1e-5, 2e-6 / sqrt(std::max(1e-9, 1 - pow((dir[0] * up[0] + dir[1] * up[1] + dir[2] * up[2]) / (n * un), 2))))); qrot(qd(q), y, o); r.ok("Y leans to up", o[0] * up[0] + o[1] * up[1] + o[2] * up[2] > 0); }
SITE(orient) { auto D = product<3>({0.f, 1.f, -1.f, 0.3f, -5.f}); for (auto v : std::vector<VF<3>>{{{0.01f, 1, 0}}, {{0.006f, -1, 0.004f}}, {{0, 100, 1}}, {{1, 0.008f, -0.01f}}, {{0.005f, 0.01f, -1}}, {{1e-3f, -2e-3f, 3e-3f}}, {{500, -200, 30}}, {{-30, 60, -80}}, {{4, -3, 7}}, {{-6000, -3000, 5000}}, {{2e5f, 4e5f, -3e5f}}, {{-2e-4f, 1e-4f, 5e-4f}}, {{0.05f, -0.02f, 0.06f}}}) D.push_back(v); for (auto &v : nearunit()) D.push_back(v); auto U = std::vector<VF<3>>{{{0, 1, 0}}, {{0, 0, 1}}, {{1, 0, 0}}, {{0.2f, 2, -0.3f}}, {{0, -1, 0}}, {{1, 40, 3}}, {{0, 0, -300}}, {{0.1f, 0.2f, 0.05f}}, {{-0.004f, 0.002f, 0.001f}}, {{-1, -2, 1}}, {{6, -40, -5}}, {{-3000, 7000, -2000}}, {{3e5f, 2e5f, 1e5f}}, {{0.03f, -0.06f, -0.02f}}, {{-3e-4f, 5e-4f, 2e-4f}}, {{-70, -20, 300}}}; for (auto &v : nearunit()) U.push_back(v); for (float e : {0.04f, -0.008f}) { U.push_back({{e, 1, -e}}); U.push_back({{e, e, 1}}); U.push_back({{-1, e, 0}}); } for (auto &d : D) for (auto &u : U) { double n = 0, un = 0, du = 0; for (int k = 0; k < 3; k++) { n += (double)d.a[k] * d.a[k]; un += (double)u.a[k] * u.a[k]; du += (double)d.a[k] * u.a[k]; } if (n == 0 || fabs(du) > 0.99999 * sqrt(n * un)) continue;
    r.tick(); A32 float dir[3], up[3], q[4], f[3] = {1, -2, 3}, t[3]; memcpy(dir, d.a, 12); memcpy(up, u.a, 12); r.show("dir", dir, 3); r.show("up", up, 3); if (HAVE(glm_quat_for)) { FILL(q); F(glm_quat_for)(dir, up, q); check_for(r, dir, up, q); }
    if (HAVE(glm_quat_forp)) for (auto &f0 : std::vector<VF<3>>{{{1, -2, 3}}, {{0, 0, 0}}, {{-7, 0.5f, 2}}, {{0.01f, 0.02f, -0.03f}}, {{-1, -4, -2}}, {{30, 1, -150}}, {{-6000, 300, 40}}, {{400, -2000, -5000}}, {{3e5f, -1e5f, 2e5f}}, {{-2e-4f, 5e-4f, 3e-4f}}, {{5, 60, -0.6f}}, {{dir[0], dir[1], dir[2]}}, {{-dir[0], -dir[1], -dir[2]}}, {{up[0], up[1], up[2]}}}) { memcpy(f, f0.a, 12); r.show("from", f, 3); for (int k = 0; k < 3; k++) t[k] = f[k] + dir[k]; FILL(q); F(glm_quat_forp)(f, t, up, q); float dd[3]; for (int k = 0; k < 3; k++) dd[k] = t[k] - f[k]; double l2 = 0; for (float x : dd) l2 += x * x; if (l2 * 1e4 < f[0] * f[0] + f[1] * f[1] + f[2] * f[2]) continue; check_for(r, dd, up, q); } } }
SITE(from_vecs) { if (!HAVE(glm_quat_from_vecs)) return; std::vector<VF<3>> U; for (auto &v : product<3>({0.f, 1.f, -1.f, 0.4f, -0.2f})) { double n = sqrt((double)v.a[0] * v.a[0] + (double)v.a[1] * v.a[1] + (double)v.a[2] * v.a[2]); if (n) U.push_back({{(float)(v.a[0] / n), (float)(v.a[1] / n), (float)(v.a[2] / n)}}); }
  size_t nu = U.size(); std::vector<std::pair<VF<3>, VF<3>>> P; for (size_t i = 0; i < nu; i++) for (size_t j = 0; j < nu; j++) P.push_back({U[i], U[j]});
  for (size_t i = 0; i < nu; i++) for (float s : {1.f, -1.f}) for (float e : {1e-4f, 1e-3f, 3e-3f, 4e-3f, 5e-3f, 6e-3f, 1e-2f, 3e-2f}) for (int k = 0; k < 3; k++) { VF<3> b; for (int l = 0; l < 3; l++) b.a[l] = s * U[i].a[l] + (l == k ? e : 0); double n = sqrt((double)b.a[0] * b.a[0] + (double)b.a[1] * b.a[1] + (double)b.a[2] * b.a[2]); for (float &x : b.a) x = (float)(x / n); P.push_back({U[i], b}); }
  for (auto &p : P) { r.tick(); A32 float a[3], b[3], q[4]; memcpy(a, p.first.a, 12); memcpy(b, p.second.a, 12); FILL(q); r.show("a", a, 3); r.show("b", b, 3); F(glm_quat_from_vecs)(a, b, q); r.show("q", q, 4); double c = 0, v[3] = {a[0], a[1], a[2]}, o[3]; for (int k = 0; k < 3; k++) c += (double)a[k] * b[k]; r.ok("unit result", fabs(qn(qd(q)) - 1) < 1e-5); qrot(qd(q), v, o); double tol = 1 - fabs(c) < 1.2e-5 ? 5.1e-3 : 4e-6 + 4e-7 / sqrt(1 - fabs(c)); for (int k = 0; k < 3; k++) r.ok("rotates a onto b", fabs(o[k] - b[k]) <= tol);
    // the shortest such rotation: its axis is perpendicular to both
    if (1 - fabs(c) > 1.2e-5) { double d = (q[0] * a[0] + q[1] * a[1] + q[2] * a[2]); r.ok("axis perpendicular to a", fabs(d) < 1e-5 + 4e-7 / sqrt(1 - fabs(c))); } } }
SITE(rotate_matrix) { auto MM = mats(4, 4, 26); std::vector<FM> B; for (size_t i = 0; i < MM.size(); i += 2) B.push_back(MM[i]); B = plusnear(B, 4, 4); std::vector<QF> A = thin(UQ(), 17); for (auto &q : nearunitq(73)) A.push_back(q); for (float s : {1e-3f, 0.1f, 0.99f, 2.f, 20.f, 1e3f}) for (auto &q : thin(UQ(), 97)) A.push_back({{q.a[0] * s, q.a[1] * s, q.a[2] * s, q.a[3] * s}}); A.push_back({{0, 0, 0, 0}}); B.push_back(FM{}); auto PV = plus<3>({{{1, -2, 0.5f}}, {{0, 0, 0}}, {{-3, -1, 2}}, {{0, 1, 0}}}); size_t pi = 0; for (auto &p : A) for (auto &m0 : B) { r.tick(); A32 float q[4], m[16], d[16], pv[3]; memcpy(pv, PV[pi++ % PV.size()].a, 12); r.show("pivot", pv, 3); memcpy(q, p.a, 16); memcpy(m, m0.a, 64); r.show("q", q, 4); r.show("m", m, 16); auto Rm = ext4(qn(qd(q)) > 0 ? qmat3(qd(q)) : idM<3>()), Mm = ld<4, 4>(m); float np[3] = {-pv[0], -pv[1], -pv[2]};
    if (HAVE(glm_quat_rotate)) { FILL(d); F(glm_quat_rotate)(m, q, d); near(r, "m*R", d, mulM(Mm, Rm), 24); memcpy(d, m, 64); F(glm_quat_rotate)(d, q, d); near(r, "m*R in place", d, mulM(Mm, Rm), 24); }
    auto P = mulM(mulM(transM(pv), Rm), transM(np)); if (HAVE(glm_quat_rotate_at)) { memcpy(d, m, 64); F(glm_quat_rotate_at)(d, q, pv); near(r, "m*T*R*T^-1", d, mulM(Mm, P), 32); } if (HAVE(glm_quat_rotate_atm)) { FILL(d); F(glm_quat_rotate_atm)(d, q, pv); near(r, "T*R*T^-1", d, P, 32); } } }
SITE(roundtrip) { if (!HAVE(glm_quat_mat4) || !HAVE(glm_mat4_quat) || !HAVE(glm_quat_mat3) || !HAVE(glm_mat3_quat)) return; for (auto &p : UQ()) { r.tick(); A32 float q[4], m[16], n[9], d[4]; memcpy(q, p.a, 16); r.show("q", q, 4); F(glm_quat_mat4)(q, m); F(glm_mat4_quat)(m, d); r.ok("mat4 round trip", qsame(d, qunit(qd(q)), 3e-6)); F(glm_quat_mat3)(q, n); F(glm_mat3_quat)(n, d); r.ok("mat3 round trip", qsame(d, qunit(qd(q)), 3e-6)); } }
int main(int c, char **v) { return cglmv_main(c, v); }
