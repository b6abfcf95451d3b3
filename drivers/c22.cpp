// C22: view matrices
// API: lookat lookat_* look look_*
#include "ref.hpp"
#define FILL(d) for (float &x_ : d) x_ = 12345.f
typedef void (*L4)(float *, float *, float *, float *); typedef void (*L3)(float *, float *, float *);
static double dot(const double *a, const double *b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static void nrm(double *a) { double n = sqrt(dot(a, a)); for (int k = 0; k < 3; k++) a[k] /= n; }
static void cross(const double *a, const double *b, double *o) { for (int k = 0; k < 3; k++) o[k] = a[(k + 1) % 3] * b[(k + 2) % 3] - a[(k + 2) % 3] * b[(k + 1) % 3]; }
// rows: right, up, +-forward; left-handed looks along +Z
static void check(Run &r, const char *w, const float *g, bool lh, const float *eye, const double *fwd, const double *up, double amp) { double f[3] = {fwd[0], fwd[1], fwd[2]}, s[3], u[3]; nrm(f); if (lh) cross(up, f, s); else cross(f, up, s); nrm(s); if (lh) cross(f, s, u); else cross(s, f, u); M<4, 4> e = idM<4>(); for (int c = 0; c < 3; c++) { e(c, 0) = R(s[c], amp); e(c, 1) = R(u[c], amp); e(c, 2) = R(lh ? f[c] : -f[c], amp); } for (int k = 0; k < 3; k++) { R t(0); for (int c = 0; c < 3; c++) t += e(c, k) * R(eye[c]); e(3, k) = -t; } near(r, w, g, e, 32); }
struct VV { const char *n; bool lh; L4 lookat, look; L3 any; };
static std::vector<VV> vars(Run &r) { return {{"configured", r.lh, r.f.glm_lookat, r.f.glm_look, r.f.glm_look_anyup}, {"lh", 1, r.f.glm_lookat_lh, r.f.glm_look_lh, r.f.glm_look_anyup_lh}, {"rh", 0, r.f.glm_lookat_rh, r.f.glm_look_rh, r.f.glm_look_anyup_rh}, {"lh_no", 1, r.f.glm_lookat_lh_no, r.f.glm_look_lh_no, r.f.glm_look_anyup_lh_no}, {"lh_zo", 1, r.f.glm_lookat_lh_zo, r.f.glm_look_lh_zo, r.f.glm_look_anyup_lh_zo}, {"rh_no", 0, r.f.glm_lookat_rh_no, r.f.glm_look_rh_no, r.f.glm_look_anyup_rh_no}, {"rh_zo", 0, r.f.glm_lookat_rh_zo, r.f.glm_look_rh_zo, r.f.glm_look_anyup_rh_zo}}; }
SITE(views) { auto E = product<3>({0.f, 1.f, -4.f, 10.f}); for (auto &v : std::vector<VF<3>>{{{0.2f, 0.1f, -0.25f}}, {{-3e-3f, 5e-3f, 1e-3f}}, {{60, -20, 90}}, {{-500, 300, 40}}, {{2000, 100, -9000}}, {{-200, -0.04f, 9000}}, {{3, -2e-4f, -0.5f}}, {{-40, 4000, -6}}, {{0.5f, -70, 2e-4f}}, {{-2e5f, 4e5f, -3e5f}}, {{3e5f, -5e5f, 1e5f}}, {{-0.6f, -300, 8000}}}) E.push_back(v); auto D = product<3>({0.f, 1.f, -1.f, 0.3f}); for (auto v : std::vector<VF<3>>{{{0.01f, 1, 0}}, {{0.006f, -1, 0.004f}}, {{0, 100, 1}}, {{1, 0.008f, -0.01f}}, {{0.005f, 0.01f, -1}}, {{1e-3f, -2e-3f, 3e-3f}}, {{500, -200, 30}}, {{-2e-4f, 0, 1e-4f}}, {{5, -3, 4}}, {{-6, 2, -7}}, {{-30, 60, -20}}, {{40, -90, 70}}, {{-6000, 3000, 5000}}, {{4000, -2000, -9000}}, {{2e5f, 3e5f, -4e5f}}, {{-2e-6f, 3e-6f, 1e-6f}}, {{0.02f, -0.05f, -0.03f}}}) D.push_back(v); { auto Z = nearunit(); for (size_t i = 0; i < Z.size(); i += 3) D.push_back(Z[i]); } std::vector<VF<3>> U = {{{0, 1, 0}}, {{0, 0, 1}}, {{1, 0, 0}}, {{0.2f, 2, -0.3f}}, {{0, -3, 0}}, {{-1, 1, 5}}, {{0, 50, 0}}, {{-200, 700, 100}}, {{0.1f, 0.2f, 0}}, {{1e-3f, -4e-3f, 2e-3f}}, {{0, 0, -1e-2f}}, {{6, -0.05f, -40}}, {{-0.02f, -30, 70}}, {{3000, -8000, 2000}}, {{-2e5f, 1e5f, 4e5f}}, {{-2e-4f, 3e-4f, 1e-4f}}, {{0.004f, 1, -0.002f}}, {{0, 1.003f, 0}}, {{0.0004f, 0.9997f, 0.0003f}}, {{0.01f, 0.003f, 1.002f}}}; for (auto &e : E) for (auto &d : D) for (auto &u : U) { double ff[3] = {d.a[0], d.a[1], d.a[2]}, uu[3] = {u.a[0], u.a[1], u.a[2]}; double n2 = dot(ff, ff); if (n2 == 0) continue; double c = fabs(dot(ff, uu)) / sqrt(n2 * dot(uu, uu)); if (c > 0.99999) continue; double em = 1 + std::max({fabsf(e.a[0]), fabsf(e.a[1]), fabsf(e.a[2])}) / sqrt(n2); double amp = (2 + em) / sqrt(1 - c * c);
    for (auto &v : vars(r)) { if (!v.lookat && !v.look) continue; r.tick(); A32 float eye[3], dir[3], up[3], tgt[3], m[16]; memcpy(eye, e.a, 12); memcpy(dir, d.a, 12); memcpy(up, u.a, 12); if (r.on()) printf("  %s\n", v.n); r.show("eye", eye, 3); r.show("dir", dir, 3); r.show("up", up, 3); for (int k = 0; k < 3; k++) tgt[k] = eye[k] + dir[k]; double td[3] = {(double)tgt[0] - eye[0], (double)tgt[1] - eye[1], (double)tgt[2] - eye[2]};
      if (v.lookat) { FILL(m); ++r.calls; v.lookat(eye, tgt, up, m); check(r, "lookat", m, v.lh, eye, td, uu, amp); } if (v.look) { FILL(m); ++r.calls; v.look(eye, dir, up, m); check(r, "look", m, v.lh, eye, ff, uu, amp); } } } }
// look at a given point: the origin, points near it, other points, from eyes in every octant and at several distances
SITE(targets) { auto E = product<3>({0.f, 1.f, -4.f, 0.02f, -300.f, 6.f, -2e-4f}); std::vector<VF<3>> T = {{{0, 0, 0}}, {{0.004f, -0.002f, 0.001f}}, {{-0.1f, 0.2f, 0.15f}}, {{1, 2, 3}}, {{-5, -6, -4}}, {{0, 1, 0}}, {{0, 0, 1}}, {{0.2f, 2, -0.3f}}, {{-2, 40, 3}}, {{0, 0, -200}}, {{700, 30, -90}}, {{-30, 5000, -8000}}, {{6000, -3000, 40}}, {{2e5f, -4e5f, 1e5f}}, {{-7e5f, 5e4f, -3e5f}}, {{2e-4f, 3e-4f, -8e-4f}}, {{0.003f, 0.002f, -1}}, {{-4.02f, -4, 0.98f}}, {{1.01f, 1, -3.998f}}}, U = {{{0, 1, 0}}, {{0, 0, 1}}, {{0.2f, 2, -0.3f}}, {{-1, -2, -3}}, {{0, -40, 0}}, {{3e-3f, 1e-3f, -2e-3f}}, {{1, 2, 3}}, {{1, 0, 0}}, {{-6000, 9000, -4000}}, {{3e5f, -2e5f, 1e5f}}};
  for (auto &e : E) for (auto &t : T) for (int ui = 0; ui < 14; ui++) { A32 float eye[3], tgt[3], up[3], m[16]; memcpy(eye, e.a, 12); memcpy(tgt, t.a, 12); memcpy(up, ui < 10 ? U[ui].a : ui == 10 ? t.a : ui == 11 ? e.a : U[0].a, 12); if (ui > 11) { up[0] += ui == 12 ? 3e-3f : 2e-4f; up[1] -= ui == 12 ? 2e-3f : 3e-4f; up[2] += 4e-3f; } double ff[3], uu[3]; for (int k = 0; k < 3; k++) { ff[k] = (double)tgt[k] - eye[k]; uu[k] = up[k]; } double n2 = dot(ff, ff), u2 = dot(uu, uu); if (n2 == 0 || u2 == 0) continue; double c = fabs(dot(ff, uu)) / sqrt(n2 * u2); if (c > 0.99999) continue; double amp = 3 / sqrt(1 - c * c);
    for (auto &v : vars(r)) { if (!v.lookat) continue; r.tick(); if (r.on()) printf("  %s\n", v.n); r.show("eye", eye, 3); r.show("center", tgt, 3); r.show("up", up, 3); FILL(m); ++r.calls; v.lookat(eye, tgt, up, m); check(r, "lookat", m, v.lh, eye, ff, uu, amp); } } }
SITE(anyup) { auto E = product<3>({0.f, 2.f, -5.f}); for (auto &v : std::vector<VF<3>>{{{0.2f, 0.1f, -0.25f}}, {{-3e-3f, 5e-3f, 1e-3f}}, {{60, -20, 90}}, {{0.6f, 0, 0.8f}}, {{-200, 3000, -7000}}, {{400, -500, 8000}}, {{-2e4f, 3e5f, -1e5f}}, {{5e5f, -2e5f, 4e4f}}, {{-0.02f, -2e-4f, 3e-4f}}, {{3, -70, 40}}, {{-0.7f, 30, -0.2f}}}) E.push_back(v); std::vector<VF<3>> D; for (auto &v : product<3>({0.f, 1.f, -1.f, 0.5f, -0.3f, 0.04f, -3e-4f, 1e-6f})) { double n = sqrt((double)v.a[0] * v.a[0] + (double)v.a[1] * v.a[1] + (double)v.a[2] * v.a[2]); if (n) D.push_back({{(float)(v.a[0] / n), (float)(v.a[1] / n), (float)(v.a[2] / n)}}); }
  for (auto &e : E) for (auto &d : D) for (auto &v : vars(r)) { if (!v.any) continue; r.tick(); A32 float eye[3], dir[3], m[16]; memcpy(eye, e.a, 12); memcpy(dir, d.a, 12); FILL(m); if (r.on()) printf("  %s\n", v.n); r.show("eye", eye, 3); r.show("dir", dir, 3); ++r.calls; v.any(eye, dir, m); r.show("view", m, 16);
    // rigid, proper, looks along dir, eye maps to the origin
    M<3, 3> q; for (int c = 0; c < 3; c++) for (int w = 0; w < 3; w++) q(c, w) = R(m[c * 4 + w]); auto I = mulM(q, trM(q)); for (int k = 0; k < 9; k++) r.near("orthonormal", (float)I.a[k].v, R(k / 3 == k % 3, 4), 64); r.near("proper", (float)detM(q).v, R(1, 4), 64); const float want[3] = {0, 0, v.lh ? 1.f : -1.f}; for (int w = 0; w < 3; w++) { double x = 0, y = m[12 + w]; for (int c = 0; c < 3; c++) { x += (double)m[c * 4 + w] * dir[c]; y += (double)m[c * 4 + w] * eye[c]; } r.near("direction maps to the viewing axis", (float)x, R(want[w], 8 + 0.1 * std::max({fabsf(e.a[0]), fabsf(e.a[1]), fabsf(e.a[2])})), 64); r.near("eye maps to the origin", (float)y, R(0, 4 + fabs(e.a[0]) + fabs(e.a[1]) + fabs(e.a[2])), 32); } for (int k = 0; k < 4; k++) r.eqf("affine", m[k * 4 + 3], k == 3); } }
int main(int c, char **v) { return cglmv_main(c, v); }
