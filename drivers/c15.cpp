// C15: quaternion interpolation
// API: quat_lerp quat_lerpc quat_nlerp quat_slerp quat_slerp_longest
#include "quat.hpp"
#define FILL(d) for (float &x_ : d) x_ = 12345.f
static const FV &TT() { static FV v = {0.f, 1.f, 0.5f, 0.25f, 0.75f, 1.f / 3, 0.1f, 0.9f, 1e-3f, 0.999f, 1e-7f, 0.99999994f, 0.02f, 0.98f, 4e-3f, 0.996f, 3e-4f, 0.9997f, 4e-5f, 0.99996f}; return v; }
static const FV &TX() { static FV v = {-0.5f, 1.5f, 2.f, -1.f, -3.f, 7.f, 60.f, -1e-3f, 1.001f, 1.03f, -0.02f, 1.0002f, -2e-4f}; return v; }
struct PQ { float a[4], b[4]; };
static std::vector<PQ> pairs(bool all) { std::vector<PQ> o; auto A = thin(UQ(), all ? 9 : 23); for (auto &p : A) for (auto &q : A) { PQ x; memcpy(x.a, p.a, 16); memcpy(x.b, q.a, 16); o.push_back(x); }
  { std::vector<QF> G; for (int g = 0; g < 16; g++) for (int h = 0; h < (all ? 4 : 2); h++) { static const double W[4] = {0.2, 0.4, 0.6, 0.67}; double w[4]; for (int i = 0; i < 4; i++) w[i] = W[(i + h + g / 5) % 4] * (g >> i & 1 ? -1 : 1); Q q = qunit({w[0], w[1], w[2], w[3]}); G.push_back({{(float)q.x, (float)q.y, (float)q.z, (float)q.w}}); } // every sign pattern against every other
    for (auto &p : G) for (auto &q : G) { PQ x; memcpy(x.a, p.a, 16); memcpy(x.b, q.a, 16); o.push_back(x); } }
  for (auto &p : thin(UQ(), 23)) for (float s : {1.f, -1.f}) for (float e : {0.f, 1e-6f, 1e-5f, 1e-4f, 3e-4f, 8e-4f, 1.2e-3f, 2e-3f, 1e-2f, 0.1f}) for (int k = 0; k < 4; k++) { Q b = {s * p.a[0] + (k == 0 ? e : 0), s * p.a[1] + (k == 1 ? e : 0), s * p.a[2] + (k == 2 ? e : 0), s * p.a[3] + (k == 3 ? e : 0)}; b = qunit(b); PQ x; memcpy(x.a, p.a, 16); x.b[0] = b.x; x.b[1] = b.y; x.b[2] = b.z; x.b[3] = b.w; o.push_back(x); } return o; }
SITE(lerp) { auto PP = pairs(true); auto S = sized<4>(); auto W = thin(UQ(), 41); { auto U = nearunitq(19); for (size_t i = 0; i < U.size(); i++) { PQ x; memcpy(x.a, U[i].a, 16); memcpy(x.b, U[(i * 7 + 4) % U.size()].a, 16); PP.push_back(x); memcpy(x.b, UQ()[i * 5 % UQ().size()].a, 16); PP.push_back(x); std::swap(x.a, x.b); PP.push_back(x); } } for (size_t i = 0; i < S.size(); i++) { PQ x; memcpy(x.a, S[i].a, 16); memcpy(x.b, S[(i * 5 + 3) % S.size()].a, 16); PP.push_back(x); memcpy(x.b, W[i % W.size()].a, 16); PP.push_back(x); std::swap(x.a, x.b); PP.push_back(x); memset(x.b, 0, 16); PP.push_back(x); std::swap(x.a, x.b); PP.push_back(x); } for (auto &p : PP) for (const FV *T : {&TT(), &TX()}) for (float t : *T) { r.tick(); A32 float a[4], b[4], d[4]; memcpy(a, p.a, 16); memcpy(b, p.b, 16); r.show("from", a, 4); r.show("to", b, 4); r.show("t", t); double tc = t < 0 ? 0 : t > 1 ? 1 : t;
    if (HAVE(glm_quat_lerp)) { FILL(d); F(glm_quat_lerp)(a, b, t, d); for (int k = 0; k < 4; k++) r.near("lerp", d[k], R(a[k]) + R(t) * (R(b[k]) - R(a[k])), 8); } if (HAVE(glm_quat_lerpc)) { FILL(d); F(glm_quat_lerpc)(a, b, t, d); for (int k = 0; k < 4; k++) r.near("lerpc", d[k], R(a[k]) + R(tc) * (R(b[k]) - R(a[k])), 8); }
    if (HAVE(glm_quat_nlerp) && t >= 0 && t <= 1) { FILL(d); F(glm_quat_nlerp)(a, b, t, d); Q x = qd(a), y = qd(b); double dt = x.x * y.x + x.y * y.y + x.z * y.z + x.w * y.w; double nx = qn(x), ny = qn(y); if (fabs(dt) < 1e-5 * nx * ny || nx == 0 || ny == 0 || nx > 1e3 * ny || ny > 1e3 * nx) continue; double s = dt < 0 ? -1 : 1; Q e = {x.x + t * (s * y.x - x.x), x.y + t * (s * y.y - x.y), x.z + t * (s * y.z - x.z), x.w + t * (s * y.w - x.w)}; double cn = qn(e) / std::max(nx, ny); if (cn < 0.02) continue; e = qunit(e); const double ev[4] = {e.x, e.y, e.z, e.w}; for (int k = 0; k < 4; k++) r.near("nlerp", d[k], R(ev[k], 1 / std::min(1.0, cn)), 24); } } }
// the arc between the quaternions, shortest or longest
static void slerp_site(Run &r, bool lng) { if (lng ? !HAVE(glm_quat_slerp_longest) : !HAVE(glm_quat_slerp)) return;
  for (auto &p : pairs(true)) for (float t : TT()) { r.tick(); A32 float a[4], b[4], d[4]; memcpy(a, p.a, 16); memcpy(b, p.b, 16); FILL(d); r.show("from", a, 4); r.show("to", b, 4); r.show("t", t); if (lng) F(glm_quat_slerp_longest)(a, b, t, d); else F(glm_quat_slerp)(a, b, t, d); r.show("result", d, 4);
    Q x = qd(a), y = qd(b); double c = x.x * y.x + x.y * y.y + x.z * y.z + x.w * y.w, sn = sqrt(std::max(0.0, 1 - c * c));
    if (lng && sn < 2e-3) {   // the long way round between (nearly) equal rotations has no distinguished great circle: unit quaternions that start and end at the operands' rotation
      r.ok("unit result", fabs(qn(qd(d)) - 1) < (sn < 9e-4 ? 5e-4 : 5e-4 + 4e-7 / (sn * sn))); if (t == 0 || t == 1) { Q e = qunit(t ? y : x); r.ok("meets the end point", qsame(d, e, sn < 9e-4 ? 2e-3 : 2e-3 + 4e-7 / (sn * sn))); } continue; }
    if (fabs(c) < 1e-6) { r.ok("unit result", fabs(qn(qd(d)) - 1) < 1e-5); continue; }   // either arc is shortest
    bool flip = lng ? c > 0 : c < 0; double s = flip ? -1 : 1, cc = c * s, ang = atan2(sn, cc), wa, wb;
    if (sn < 1e-9) { wa = 1 - t; wb = t; } else { wa = sin((1 - t) * ang) / sin(ang); wb = sin(t * ang) / sin(ang); }
    Q e = {wa * s * x.x + wb * y.x, wa * s * x.y + wb * y.y, wa * s * x.z + wb * y.z, wa * s * x.w + wb * y.w};
    // float arc cosine: error in the angle is rounding / sin
    double tol = 4e-6 + (sn < 2e-3 ? 2e-4 : 1e-6 / sn); 
    double utol = sn < 2e-3 ? 5e-4 : 1e-5 + 1e-6 / sn; if (sn < 2e-3) tol = 1e-3 * 0.5; if (lng) { tol = 4e-6 + 4e-7 / (sn * sn); utol = 1e-5 + 4e-7 / (sn * sn); }
    r.ok("the point on the arc (up to sign)", qsame(d, e, tol)); r.ok("unit result", fabs(qn(qd(d)) - 1) < utol); } }
SITE(slerp) { slerp_site(r, false); }
SITE(slerp_longest) { slerp_site(r, true); }
// continuity along the path: consecutive samples never jump in rotation
SITE(slerp_continuity) { if (!HAVE(glm_quat_slerp)) return; for (auto &p : pairs(false)) { A32 float a[4], b[4], d[4], l[4]; memcpy(a, p.a, 16); memcpy(b, p.b, 16); for (int i = 0; i <= 32; i++) { r.tick(); r.show("from", a, 4); r.show("to", b, 4); F(glm_quat_slerp)(a, b, i / 32.f, d); r.show("sample", d, 4); if (i) { double dt = 0; for (int k = 0; k < 4; k++) dt += (double)d[k] * l[k]; r.ok("step within the arc length", fabs(dt) > cos(M_PI / 2 / 32) - 1e-3); } memcpy(l, d, 16); } } }
int main(int c, char **v) { return cglmv_main(c, v); }
