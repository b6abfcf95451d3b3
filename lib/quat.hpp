#pragma once
#include "ref.hpp"
struct Q { double x, y, z, w; };
static Q qmul(Q a, Q b) { return {a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y, a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x, a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w, a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z}; }
static double qn(Q a) { return sqrt(a.x * a.x + a.y * a.y + a.z * a.z + a.w * a.w); }
static Q qd(const float *q) { return {q[0], q[1], q[2], q[3]}; }
static Q qunit(Q a) { double n = qn(a); if (n == 0) return {0, 0, 0, 1}; return {a.x / n, a.y / n, a.z / n, a.w / n}; }
static void qrot(Q q, const double *v, double *o) { q = qunit(q); Q p = qmul(qmul(q, {v[0], v[1], v[2], 0}), {-q.x, -q.y, -q.z, q.w}); o[0] = p.x; o[1] = p.y; o[2] = p.z; }
static M<3, 3> qmat3(Q q) { M<3, 3> m; for (int c = 0; c < 3; c++) { double e[3] = {c == 0, c == 1, c == 2}, o[3]; qrot(q, e, o); for (int w = 0; w < 3; w++) m(c, w) = R(o[w], 3); } return m; }
static Q qaxis(double t, double x, double y, double z) { double n = sqrt(x * x + y * y + z * z), s = sin(t / 2) / n; return {s * x, s * y, s * z, cos(t / 2)}; }
// is quaternion g the same rotation as e (either sign), within tol
static bool qsame(const float *g, Q e, double tol) { double d1 = 0, d2 = 0, ev[4] = {e.x, e.y, e.z, e.w}; for (int i = 0; i < 4; i++) { d1 = std::max(d1, fabs(g[i] - ev[i])); d2 = std::max(d2, fabs(g[i] + ev[i])); if (!std::isfinite(g[i])) return false; } return std::min(d1, d2) <= tol; }
// axis alphabet: all directions over {0,1,-1}, plus generic
static const std::vector<VF<3>> &AXES() { static std::vector<VF<3>> o; if (o.empty()) { for (auto &v : product<3>({0.f, 1.f, -1.f})) if (v.a[0] || v.a[1] || v.a[2]) o.push_back(v); for (auto v : std::vector<VF<3>>{{{1, 2, 3}}, {{-0.3f, 0.2f, 0.9f}}, {{5, -1, 0.1f}}, {{1e-3f, 1, 0}}, {{0.01f, -0.02f, 0.03f}}, {{100, 50, -70}}}) o.push_back(v); } return o; }
struct QF { float a[4]; };
// unit quaternions: all axis-angle combinations
static const std::vector<QF> &UQ(int lim = 24) { static std::vector<QF> o; if (o.empty()) { for (auto &a : AXES()) for (int k = -lim; k <= lim; k += 2) { Q q = qaxis(k * M_PI / lim, a.a[0], a.a[1], a.a[2]); o.push_back({{(float)q.x, (float)q.y, (float)q.z, (float)q.w}}); } for (size_t i = 0; i < AXES().size(); i++) for (int k = 0; k < 4; k++) { static const double B[5] = {0, M_PI, M_PI / 2, 2 * M_PI, -M_PI}; auto &a = AXES()[i]; Q q = qaxis(B[(i + k) % 5] + NEARD[(i + 2 * k) % 6], a.a[0], a.a[1], a.a[2]); o.push_back({{(float)q.x, (float)q.y, (float)q.z, (float)q.w}}); } for (auto &v : product<4>({0.f, 1.f, -1.f, 0.3f})) { Q q = qunit({v.a[0], v.a[1], v.a[2], v.a[3]}); o.push_back({{(float)q.x, (float)q.y, (float)q.z, (float)q.w}}); } } return o; }
static std::vector<QF> thin(const std::vector<QF> &v, int step) { std::vector<QF> o; for (size_t i = 0; i < v.size(); i += step) o.push_back(v[i]); return o; }
// quaternions whose norm is close to, but not, one
static std::vector<QF> nearunitq(int step) { std::vector<QF> o; int i = 0; for (auto &q : thin(UQ(), step)) for (int k = 0; k < 3; k++, i++) { float s = 1 + (float)NEARD[(i + i / 6) % 6]; o.push_back({{q.a[0] * s, q.a[1] * s, q.a[2] * s, q.a[3] * s}}); } return o; }
