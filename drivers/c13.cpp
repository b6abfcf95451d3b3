// C13: quaternion algebra
// API: quat quatv quat_identity quat_init quat_make quat_copy quat_norm quat_normalize quat_normalize_to quat_dot quat_conjugate quat_inv quat_add quat_sub quat_real quat_imag quat_imagn quat_imaglen quat_angle quat_axis quat_mul quat_rotatev
#include "quat.hpp"
#define FILL(d) for (float &x_ : d) x_ = 12345.f
static std::vector<QF> ALLQ(bool dense) { std::vector<QF> o; for (auto &v : product<4>(dense ? FV{0.f, 1.f, -1.f, 0.5f, -2.f} : FV{0.f, 1.f, -0.5f})) o.push_back({{v.a[0], v.a[1], v.a[2], v.a[3]}}); for (auto &q : thin(UQ(), dense ? 1 : 11)) o.push_back(q); for (float s : {1e-3f, 1e-6f, 1e-12f, 100.f, 1e6f}) for (auto &v : product<4>({0.f, 1.f, -0.7f})) o.push_back({{v.a[0] * s, v.a[1] * s, v.a[2] * s, v.a[3] * s}}); if (dense) for (auto &q : thin(UQ(), 7)) for (float s : {0.5f, 0.96f, 0.99f, 0.998f, 0.9998f, 1.0002f, 1.002f, 1.01f, 1.04f, 2.f}) o.push_back({{q.a[0] * s, q.a[1] * s, q.a[2] * s, q.a[3] * s}}); for (auto &q : nearunitq(dense ? 7 : 97)) o.push_back(q); for (int k = 0; k < 60; k++) o.push_back({{dv(4 * k), dv(4 * k + 1), dv(4 * k + 2), dv(4 * k + 3)}}); return o; }
static M<1, 4> rq(const float *q) { return ld<1, 4>(q); }
static void rmul(const float *p, const float *q, R *e) { R a[4], b[4]; for (int i = 0; i < 4; i++) a[i] = R(p[i]), b[i] = R(q[i]);
  e[0] = a[3] * b[0] + a[0] * b[3] + a[1] * b[2] - a[2] * b[1]; e[1] = a[3] * b[1] - a[0] * b[2] + a[1] * b[3] + a[2] * b[0]; e[2] = a[3] * b[2] + a[0] * b[1] - a[1] * b[0] + a[2] * b[3]; e[3] = a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2]; }
SITE(unary) { for (auto &p : ALLQ(true)) { r.tick(); A32 float q[4], d[4]; memcpy(q, p.a, 16); r.show("q", q, 4); R n2(0), i2(0); for (int k = 0; k < 4; k++) { n2 += R(q[k]) * R(q[k]); if (k < 3) i2 += R(q[k]) * R(q[k]); } double n = sqrt(n2.v), im = sqrt(i2.v);
    if (HAVE(glm_quat_norm)) r.near("norm", F(glm_quat_norm)(q), R(n), 16);
    for (int way = 0; way < 2; way++) { if (way ? !HAVE(glm_quat_normalize) : !HAVE(glm_quat_normalize_to)) continue; if (way) { memcpy(d, q, 16); F(glm_quat_normalize)(d); } else { FILL(d); F(glm_quat_normalize_to)(q, d); } const float id[4] = {0, 0, 0, 1}; if (n == 0) r.eqv("zero normalizes to identity", d, id, 4); else for (int k = 0; k < 4; k++) r.near("normalized", d[k], R(q[k] / n), 16); }
    if (HAVE(glm_quat_conjugate)) { FILL(d); F(glm_quat_conjugate)(q, d); for (int k = 0; k < 4; k++) r.eqf("conjugate", d[k], k < 3 ? -q[k] : q[k]); }
    if (HAVE(glm_quat_inv) && n > 1e-8) { FILL(d); F(glm_quat_inv)(q, d); for (int k = 0; k < 4; k++) r.near("inv", d[k], R((k < 3 ? -q[k] : q[k]) / n2.v), 16); }
    if (HAVE(glm_quat_real)) r.same("real", F(glm_quat_real)(q), q[3]);
    if (HAVE(glm_quat_imag)) { FILL(d); F(glm_quat_imag)(q, d); r.samev("imag", d, q, 3); r.eqf("imag writes three", d[3], 12345.f); }
    if (HAVE(glm_quat_imaglen)) r.near("imaglen", F(glm_quat_imaglen)(q), R(im), 16);
    for (int way = 0; way < 2; way++) { if (way ? !HAVE(glm_quat_axis) : !HAVE(glm_quat_imagn)) continue; FILL(d); if (way) F(glm_quat_axis)(q, d); else F(glm_quat_imagn)(q, d); if (im > 2e-7) for (int k = 0; k < 3; k++) r.near(way ? "axis" : "imagn", d[k], R(q[k] / im), 16); else if (im < 1e-7) for (int k = 0; k < 3; k++) r.eqf("axis of a real quaternion is zero", d[k], 0); }
    if (HAVE(glm_quat_angle) && n > 0) { double e = 2 * atan2(im, q[3]); r.near("angle", F(glm_quat_angle)(q), R(e, std::max(fabs(e), 1e-3)), 32); }
    if (HAVE(glm_quat_copy)) { FILL(d); F(glm_quat_copy)(q, d); r.samev("copy", d, q, 4); } if (HAVE(glm_quat_make)) { FILL(d); F(glm_quat_make)(q, d); r.samev("make", d, q, 4); }
    if (HAVE(glm_quat_init)) { FILL(d); F(glm_quat_init)(d, q[0], q[1], q[2], q[3]); r.samev("init", d, q, 4); }
    if (HAVE(glm_quat_identity)) { FILL(d); F(glm_quat_identity)(d); const float id[4] = {0, 0, 0, 1}; r.eqv("identity", d, id, 4); } } }
SITE(init) { for (auto &p : product<4>({0.f, 1.f, -1.f, 0.3f, -0.007f, 5e-5f, 70.f, -9000.f})) { r.tick(); A32 float q[4], d[4]; memcpy(q, p.a, 16); r.show("elements", q, 4); if (HAVE(glm_quat_init)) { FILL(d); F(glm_quat_init)(d, q[0], q[1], q[2], q[3]); r.samev("init", d, q, 4); } if (!q[0] && !q[1] && !q[2]) continue;
  if (HAVE(glm_quat)) { float t = p.a[3] > 60 ? 2.5f : p.a[3] < -60 ? -12.f : p.a[3] * 3; r.show("angle", t); FILL(d); F(glm_quat)(d, t, q[0], q[1], q[2]); double n = sqrt((double)q[0] * q[0] + (double)q[1] * q[1] + (double)q[2] * q[2]), s = sin(t * 0.5), e[4] = {s * q[0] / n, s * q[1] / n, s * q[2] / n, cos(t * 0.5)}; for (int k = 0; k < 4; k++) r.near("quat", d[k], R(e[k], 1), 8 + fabs(t)); } } }
SITE(pairs) { auto A = ALLQ(false); for (auto &p : A) for (auto &s : A) { r.tick(); A32 float a[4], b[4], d[4]; memcpy(a, p.a, 16); memcpy(b, s.a, 16); r.show("p", a, 4); r.show("q", b, 4); R e[4]; rmul(a, b, e);
    if (HAVE(glm_quat_mul)) { FILL(d); F(glm_quat_mul)(a, b, d); r.nearv("p*q", d, e, 4, 12); } R dt(0); for (int k = 0; k < 4; k++) dt += R(a[k]) * R(b[k]);
    if (HAVE(glm_quat_dot)) r.near("dot", F(glm_quat_dot)(a, b), dt, 12);
    if (HAVE(glm_quat_add)) { FILL(d); F(glm_quat_add)(a, b, d); for (int k = 0; k < 4; k++) r.eqf("add", d[k], a[k] + b[k]); } if (HAVE(glm_quat_sub)) { FILL(d); F(glm_quat_sub)(a, b, d); for (int k = 0; k < 4; k++) r.eqf("sub", d[k], a[k] - b[k]); } } }
SITE(axis_angle) { FV T = angles(); for (float t : {7.f, -20.f, 1e-5f, 6e-5f, -1.5e-4f, 3e-6f}) T.push_back(t); auto AX = AXES(); for (auto &x : nearunit()) AX.push_back(x); for (auto &x : AX) for (float s : {1.f, 1e-3f, 1e3f}) for (float t : T) { r.tick(); A32 float ax[3], d[4], v[3] = {0.3f, -2, 1.5f}, o[3]; for (int k = 0; k < 3; k++) ax[k] = x.a[k] * s; r.show("axis", ax, 3); r.show("angle", t); Q q = qaxis(t, ax[0], ax[1], ax[2]); const double e[4] = {q.x, q.y, q.z, q.w};
    if (HAVE(glm_quatv)) { FILL(d); F(glm_quatv)(d, t, ax); for (int k = 0; k < 4; k++) r.near("quatv", d[k], R(e[k], 1), 8 + fabs(t)); if (HAVE(glm_quat_rotatev)) { F(glm_quat_rotatev)(d, v, o); auto m = rot3M(t, ax); for (int k = 0; k < 3; k++) r.near("rotates about the axis", o[k], m(0, k) * R(v[0]) + m(1, k) * R(v[1]) + m(2, k) * R(v[2]), 16 + fabs(t)); } }
    if (HAVE(glm_quat)) { FILL(d); F(glm_quat)(d, t, ax[0], ax[1], ax[2]); for (int k = 0; k < 4; k++) r.near("quat", d[k], R(e[k], 1), 8 + fabs(t)); } } 
  for (float t : {0.f, 1.f, -3.f}) { r.tick(); A32 float ax[3] = {0, 0, 0}, d[4]; r.show("angle", t); if (HAVE(glm_quatv)) { F(glm_quatv)(d, t, ax); for (int k = 0; k < 3; k++) r.eqf("zero axis", d[k], 0); r.near("zero axis w", d[3], R(cos(t / 2), 1), 8); } } }
SITE(rotatev) { if (!HAVE(glm_quat_rotatev)) return; auto A = ALLQ(true); auto V = product<3>({0.f, 1.f, -2.f, 0.3f}); for (auto &x : nearunit()) V.push_back(x); V.push_back({{100, -1e-3f, 7}}); V = plus<3>(V); for (auto &p : A) { double n = qn(qd(p.a)); if (n < 1e-10) { if (n > 0) continue; } for (auto &v : V) { r.tick(); A32 float q[4], a[3], d[3]; memcpy(q, p.a, 16); memcpy(a, v.a, 12); FILL(d); r.show("q", q, 4); r.show("v", a, 3); F(glm_quat_rotatev)(q, a, d); double w[3] = {a[0], a[1], a[2]}, e[3]; if (n == 0) { e[0] = w[0]; e[1] = w[1]; e[2] = w[2]; } else qrot(qd(q), w, e); double m = fabs(w[0]) + fabs(w[1]) + fabs(w[2]); for (int k = 0; k < 3; k++) r.near("rotated vector", d[k], R(e[k], m), 24); } } }
// composition: rotating by p*q is rotating by q then by p; p * p^-1 is the identity; associativity; closure of the finite rotation groups
SITE(laws) { if (!HAVE(glm_quat_mul) || !HAVE(glm_quat_inv)) return; auto A = thin(UQ(), r.thorough ? 5 : 29); for (auto &p : A) for (auto &s : A) for (auto &t : A) { r.tick(); A32 float a[4], b[4], c[4], ab[4], x[4], y[4], v[3] = {1, -2, 0.5f}, o1[3], o2[3]; memcpy(a, p.a, 16); memcpy(b, s.a, 16); memcpy(c, t.a, 16); r.show("a", a, 4); r.show("b", b, 4); r.show("c", c, 4);
    F(glm_quat_mul)(a, b, ab); F(glm_quat_mul)(ab, c, x); F(glm_quat_mul)(b, c, y); A32 float z[4]; F(glm_quat_mul)(a, y, z); for (int k = 0; k < 4; k++) r.near("associative", x[k], R(z[k], 4), 16);
    F(glm_quat_inv)(a, x); F(glm_quat_mul)(a, x, y); for (int k = 0; k < 4; k++) r.near("q * inverse", y[k], R(k == 3, 1), 32);
    if (HAVE(glm_quat_rotatev)) { F(glm_quat_rotatev)(ab, v, o1); F(glm_quat_rotatev)(b, v, o2); F(glm_quat_rotatev)(a, o2, o2); for (int k = 0; k < 3; k++) r.near("composition order", o1[k], R(o2[k], 4), 48); } } }
// state space of the binary octahedral group under right multiplication by its generators, explored to closure on the implementation
SITE(group_closure) { if (!HAVE(glm_quat_mul)) return; double h = sqrt(0.5); float G[3][4] = {{(float)h, 0, 0, (float)h}, {0, (float)h, 0, (float)h}, {0, 0, (float)h, (float)h}}; std::vector<QF> S = {{{0, 0, 0, 1}}}; std::vector<std::vector<int>> word = {{}};
  for (size_t i = 0; i < S.size() && S.size() < 500; i++) for (int g = 0; g < 3; g++) { r.tick(); A32 float a[4], b[4], d[4]; memcpy(a, S[i].a, 16); memcpy(b, G[g], 16); r.show("state", a, 4); r.show("generator", b, 4); F(glm_quat_mul)(a, b, d); Q e = qmul(qd(a), qd(b)); const double ev[4] = {e.x, e.y, e.z, e.w}; for (int k = 0; k < 4; k++) r.near("next", d[k], R(ev[k], 2), 8); bool seen = false; for (auto &q : S) { double m = 0; for (int k = 0; k < 4; k++) m = std::max(m, (double)fabsf(q.a[k] - d[k])); if (m < 1e-4) { seen = true; break; } } if (!seen) S.push_back({{d[0], d[1], d[2], d[3]}}); }
  r.tick(); r.eqi("the reachable set is the 48-element group", (int)S.size(), 48); }
int main(int c, char **v) { return cglmv_main(c, v); }
