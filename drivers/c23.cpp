// C23: projecting to and from the window
// API: project project_* unproject unproject* pickmatrix
#include "ref.hpp"
#define FILL(d) for (float &x_ : d) x_ = 12345.f
static std::vector<FM> cams() { std::vector<FM> o; for (int k = 0; k < 36; k++) { FM m; M<4, 4> P = zeroM<4, 4>(); float s = k & 1 ? 1 : -1; P(0, 0) = R(1.2 + 0.3 * (k % 3)); P(1, 1) = R(1.7); P(2, 0) = R(k % 4 == 3 ? 0.2 : 0); P(2, 2) = R(s * (k & 2 ? 1.02 : 1.2)); P(2, 3) = R(s); P(3, 2) = R(-0.4 - 0.1 * k); if (k % 6 == 5) { P = idM<4>(); P(0, 0) = R(0.1); P(1, 1) = R(0.2); P(2, 2) = R(0.05 * s); P(3, 2) = R(-0.3); P(3, 0) = R(0.2); } float ax[3] = {0.3f, 1, -0.2f * k}, tr[3] = {(k % 9 == 4 ? -300 : 1) * 0.5f * k, k % 8 == 2 ? 70.f : k % 13 == 5 ? 4e3f : -1.f, (k % 7 == 3 ? 400 : k % 11 == 6 ? 9000 : 1) * s * (k < 24 ? 8.f : 0.6f)}; auto V = mulM(transM(tr), rotM(0.3 * k, ax)); stf<4>(mulM(P, V), m.a); o.push_back(m); if (k % 5 == 0) { for (int q = 0; q < 16; q++) m.a[q] *= 60; o.push_back(m); for (int q = 0; q < 16; q++) m.a[q] *= 1e-4f; o.push_back(m); } /* the same projection with other homogeneous scales and signs */ if (k % 5 == 2) for (float h : {-1.f, 4e-5f, -3e4f}) { FM z = m; for (float &x : z.a) x *= h; o.push_back(z); } } FM i; memset(&i, 0, sizeof i); i.a[0] = i.a[5] = i.a[10] = i.a[15] = 1; o.push_back(i); auto Z = nearmats(4); for (size_t k = 0; k < Z.size(); k += 5) { R d = detM(exactM(ld<4, 4>(Z[k].a))); if (fabs(d.v) > 3e-2 * d.m) o.push_back(Z[k]); } return o; }
static const std::vector<VF<4>> &VPS() { static std::vector<VF<4>> v = {{{0, 0, 800, 600}}, {{0, 0, 1, 1}}, {{100, 50, 640, 480}}, {{-20, 10, 1920, 1080}}, {{5, -7, 3, 11}}, {{900, 40, 120, 90}}, {{0.1f, 0.05f, 0.2f, 0.15f}}, {{30, 700, 9, 16}}, {{-400, -300, 64, 128}}, {{0, 600, 800, -600}}, {{7, 5, -300, 250}}, {{-2000, -5000, 7680, 4320}}, {{3000, 6000, 16384, 20000}}, {{-0.3f, -0.8f, 30, 7}}, {{2, 0.6f, 50, 2000}}, {{1e-2f, -2e-2f, 2e-4f, 7e-4f}}, {{0, 0, 1.003f, 0.998f}}, {{2e-3f, -3e-4f, 1, 1.0003f}}, {{3, -4, 500, 501}}}; return v; }
// window positions unrelated to the viewport
static const std::vector<VF<3>> &WIN() { static std::vector<VF<3>> v = {{{0, 0, 0.5f}}, {{0, 0, 0}}, {{3.5f, -2, 0.2f}}, {{-60, -70, -1}}, {{1000, 5, 0.7f}}, {{0.2f, 0.1f, 0.3f}}, {{-500, 900, 3}}, {{0.04f, -0.03f, 5}}, {{0, 77, 1}}, {{20, 0, 0.01f}}, {{-3, -4, -50}}, {{1, -8, 200}}, {{0.1f, 0.02f, 0.05f}}, {{-0.2f, -0.1f, -0.04f}}, {{5000, 4000, 0.999f}}, {{-9000, 7, 2}}, {{50, -6000, 2000}}, {{3, 8, -700}}, {{-0.05f, 0.6f, 40}}, {{1.003f, 0.998f, 0.502f}}, {{399.5f, 300.4f, 0.4997f}}, {{0.5f, 0.501f, 1.004f}}, {{-3e-3f, 2e-3f, 3e-4f}}}; return v; }
SITE(project) { auto C = cams(); auto P = plus(product<3>({0.f, 1.f, -2.f, 0.3f, 5.f})); for (auto &c : C) for (auto &p : P) for (auto &vp : VPS()) { r.tick(); A32 float m[16], pos[3], w[4], d[3]; memcpy(m, c.a, 64); memcpy(pos, p.a, 12); memcpy(w, vp.a, 16); r.show("m", m, 16); r.show("pos", pos, 3); r.show("viewport", w, 4); R cl[4]; for (int k = 0; k < 4; k++) cl[k] = R(m[k]) * R(pos[0]) + R(m[4 + k]) * R(pos[1]) + R(m[8 + k]) * R(pos[2]) + R(m[12 + k]); if (fabs(cl[3].v) < 1e-2 * cl[3].m) continue;
    R nd[3]; for (int k = 0; k < 3; k++) nd[k] = cl[k] / cl[3]; R h(0.5), x = (nd[0] * h + h) * R(w[2]) + R(w[0]), y = (nd[1] * h + h) * R(w[3]) + R(w[1]), zn = nd[2] * h + h;
    auto chk = [&](const char *n, bool zo) { r.near(n, d[0], x, 24); r.near(n, d[1], y, 24); r.near(n, d[2], zo ? nd[2] : zn, 24); };
    if (HAVE(glm_project)) { FILL(d); F(glm_project)(pos, m, w, d); chk("project", r.zo); } if (HAVE(glm_project_no)) { FILL(d); F(glm_project_no)(pos, m, w, d); chk("project_no", 0); } if (HAVE(glm_project_zo)) { FILL(d); F(glm_project_zo)(pos, m, w, d); chk("project_zo", 1); }
    if (HAVE(glm_project_z)) r.near("project_z", F(glm_project_z)(pos, m), r.zo ? nd[2] : zn, 24); if (HAVE(glm_project_z_no)) r.near("project_z_no", F(glm_project_z_no)(pos, m), zn, 24); if (HAVE(glm_project_z_zo)) r.near("project_z_zo", F(glm_project_z_zo)(pos, m), nd[2], 24); } }
SITE(unprojecti) { auto C = cams(); for (auto &c : C) { auto Im = invM(exactM(ld<4, 4>(c.a))); A32 float inv[16]; stf<4>(Im, inv); auto I = ld<4, 4>(inv); for (auto &vp : VPS()) { auto U = product<3>({0.f, 1.f, 0.25f, 0.9f, -0.5f}); const size_t un = U.size(); for (size_t ui = 0; ui < un + WIN().size(); ui++) { auto &u = ui < un ? U[ui] : WIN()[ui - un]; r.tick(); A32 float w[4], p[3], d[3]; memcpy(w, vp.a, 16); for (int k = 0; k < 2; k++) p[k] = ui < un ? w[k] + u.a[k] * w[2 + k] : u.a[k]; p[2] = u.a[2]; r.show("inv", inv, 16); r.show("window", p, 3); r.show("viewport", w, 4);
    auto ex = [&](bool zo, R *e) { R v[4] = {R(2) * (R(p[0]) - R(w[0])) / R(w[2]) - R(1), R(2) * (R(p[1]) - R(w[1])) / R(w[3]) - R(1), zo ? R(p[2]) : R(2) * R(p[2]) - R(1), R(1)}; R q[4]; for (int k = 0; k < 4; k++) { q[k] = R(0); for (int l = 0; l < 4; l++) q[k] += I(l, k) * v[l]; } bool ok = fabs(q[3].v) > 1e-2 * q[3].m; for (int k = 0; k < 3; k++) e[k] = q[k] / q[3]; return ok; }; R e[3];
    if (ex(r.zo, e) && HAVE(glm_unprojecti)) { FILL(d); F(glm_unprojecti)(p, inv, w, d); r.nearv("unprojecti", d, e, 3, 24); } if (ex(0, e) && HAVE(glm_unprojecti_no)) { FILL(d); F(glm_unprojecti_no)(p, inv, w, d); r.nearv("unprojecti_no", d, e, 3, 24); } if (ex(1, e) && HAVE(glm_unprojecti_zo)) { FILL(d); F(glm_unprojecti_zo)(p, inv, w, d); r.nearv("unprojecti_zo", d, e, 3, 24); } } } } }
SITE(roundtrip) { if (!HAVE(glm_project) || !HAVE(glm_unproject)) return; auto C = cams(); auto P = product<3>({0.f, 1.f, -2.f, 0.3f}); for (auto &c : C) for (auto &p : P) for (auto &vp : VPS()) { r.tick(); A32 float m[16], pos[3], w[4], d[3], b[3]; memcpy(m, c.a, 64); memcpy(pos, p.a, 12); memcpy(w, vp.a, 16); r.show("m", m, 16); r.show("pos", pos, 3); r.show("viewport", w, 4); double cw = m[3] * pos[0] + m[7] * pos[1] + m[11] * pos[2] + m[15]; if (fabs(cw) < 1) continue; F(glm_project)(pos, m, w, d); r.show("window", d, 3); F(glm_unproject)(d, m, w, b);
    // error of the window position (including the viewport offset) carried back through the inverse
    auto I = invM(ld<4, 4>(m)); R v[4]; double vm[4] = {2 * (fabs(d[0]) + fabs(w[0])) / fabs(w[2]) + 1, 2 * (fabs(d[1]) + fabs(w[1])) / fabs(w[3]) + 1, 2 * fabs(d[2]) + 1, 1}; double vv[4] = {2.0 * (d[0] - w[0]) / w[2] - 1, 2.0 * (d[1] - w[1]) / w[3] - 1, r.zo ? d[2] : 2.0 * d[2] - 1, 1}; for (int k = 0; k < 4; k++) v[k] = R(vv[k], vm[k] * 4); R q[4]; for (int k = 0; k < 4; k++) { q[k] = R(0); for (int l = 0; l < 4; l++) q[k] += I(l, k) * v[l]; } for (int k = 0; k < 3; k++) { R e = q[k] / q[3]; r.near("round trip", b[k], R(pos[k], e.m + fabs(pos[k]) + 1), 64); } } }
SITE(unproject_any) { if (!HAVE(glm_unproject)) return; for (auto &c : cams()) { auto I = invM(ld<4, 4>(c.a)); for (auto &vp : VPS()) for (auto &u : WIN()) { r.tick(); A32 float m[16], w[4], p[3], d[3]; memcpy(m, c.a, 64); memcpy(w, vp.a, 16); memcpy(p, u.a, 12); r.show("m", m, 16); r.show("window", p, 3); r.show("viewport", w, 4);
    R v[4] = {R(2) * (R(p[0]) - R(w[0])) / R(w[2]) - R(1), R(2) * (R(p[1]) - R(w[1])) / R(w[3]) - R(1), r.zo ? R(p[2]) : R(2) * R(p[2]) - R(1), R(1)}; R q[4]; for (int k = 0; k < 4; k++) { q[k] = R(0); for (int l = 0; l < 4; l++) q[k] += I(l, k) * v[l]; } if (fabs(q[3].v) < 1e-2 * q[3].m) continue; R e[3]; for (int k = 0; k < 3; k++) e[k] = q[k] / q[3]; FILL(d); F(glm_unproject)(p, m, w, d); r.nearv("unproject", d, e, 3, 32); } } }
SITE(pickmatrix) { if (!HAVE(glm_pickmatrix)) return; for (auto &vp : VPS()) for (int ci = 0; ci < 20 + (int)WIN().size(); ci++) for (auto &s : plus<2>(product<2>({1.f, 5.f, 0.25f, 100.f, 0.f, -1.f, 700.f, 4e-3f, 30.f, 5e3f, -801.f, -802.f}))) { r.tick(); A32 float w[4], ce[2], sz[2], m[16]; memcpy(w, vp.a, 16); for (int k = 0; k < 2; k++) { static const float CC[4] = {0.f, 0.5f, 0.9f, -0.2f}; ce[k] = ci < 16 ? w[k] + CC[ci >> 2 * k & 3] * w[2 + k] : ci < 20 ? w[k] + (0.5f + (float)NEARD[(ci + k) % 6]) * w[2 + k] : WIN()[ci - 20].a[k]; sz[k] = s.a[k] < -800 ? w[2 + k] * (1 + (float)NEARD[(ci + (s.a[k] < -801 ? 1 : 0)) % 6]) : s.a[k]; } FILL(m); r.show("center", ce, 2); r.show("size", sz, 2); r.show("viewport", w, 4); if (r.surf == "struct" && (sz[0] <= 0 || sz[1] <= 0)) continue; F(glm_pickmatrix)(ce, sz, w, m); if (sz[0] <= 0 || sz[1] <= 0) { for (int k = 0; k < 16; k++) r.eqf("empty region: untouched", m[k], 12345.f); continue; }
    M<4, 4> e = idM<4>(); for (int k = 0; k < 2; k++) { e(k, k) = R(w[2 + k]) / R(sz[k]); e(3, k) = (R(w[2 + k]) - R(2) * (R(ce[k]) - R(w[k]))) / R(sz[k]); } near(r, "pick matrix", m, e, 16); } }
int main(int c, char **v) { return cglmv_main(c, v); }
