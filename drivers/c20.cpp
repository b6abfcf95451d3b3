// C20: projection construction in the four clip spaces
// API: frustum frustum_[lr]h_* perspective perspective_[lr]h_* perspective_default* ortho ortho_*
#include "ref.hpp"
#define FILL(d) for (float &x_ : d) x_ = 12345.f
typedef M<4, 4> M4;
// model: camera looks along +Z (left-handed) or -Z (right-handed); depth range [-1,1] or [0,1]
static M4 frustumM(bool lh, bool zo, R l, R rr, R b, R t, R n, R f) { M4 m = zeroM<4, 4>(); R s(lh ? 1 : -1), two(2); m(0, 0) = two * n / (rr - l); m(1, 1) = two * n / (t - b); m(2, 0) = -s * (rr + l) / (rr - l); m(2, 1) = -s * (t + b) / (t - b); m(2, 3) = s; if (zo) { m(2, 2) = s * (f / (f - n)); m(3, 2) = -(f * n / (f - n)); } else { m(2, 2) = s * ((f + n) / (f - n)); m(3, 2) = -(two * f * n / (f - n)); } return m; }
static M4 perspM(bool lh, bool zo, R fovy, R asp, R n, R f) { M4 m = frustumM(lh, zo, R(-1), R(1), R(-1), R(1), n, f); double g = 1 / tan(fovy.v / 2); R G(g, g * (1 + fabs(fovy.v) / fabs(sin(fovy.v)))); m(0, 0) = G / asp; m(1, 1) = G; m(2, 0) = m(2, 1) = R(0); return m; }
static M4 orthoM(bool lh, bool zo, R l, R rr, R b, R t, R n, R f) { M4 m = idM<4>(); R s(lh ? 1 : -1), two(2); m(0, 0) = two / (rr - l); m(1, 1) = two / (t - b); m(3, 0) = -((rr + l) / (rr - l)); m(3, 1) = -((t + b) / (t - b)); if (zo) { m(2, 2) = s / (f - n); m(3, 2) = -(n / (f - n)); } else { m(2, 2) = s * two / (f - n); m(3, 2) = -((f + n) / (f - n)); } return m; }
struct Var { const char *n; bool lh, zo; };
#define VARS(X) X(lh_no, 1, 0) X(lh_zo, 1, 1) X(rh_no, 0, 0) X(rh_zo, 0, 1)
#define CALLV(base, args, exp, K) { \
  if (HAVE(glm_##base)) { FILL(m); F(glm_##base) args; bool lh = r.lh, zo = r.zo; near(r, #base " (configured clip space)", m, exp, K); } \
  if (HAVE(glm_##base##_lh_no)) { bool lh = 1, zo = 0; FILL(m); F(glm_##base##_lh_no) args; near(r, #base "_lh_no", m, exp, K); } if (HAVE(glm_##base##_lh_zo)) { bool lh = 1, zo = 1; FILL(m); F(glm_##base##_lh_zo) args; near(r, #base "_lh_zo", m, exp, K); } \
  if (HAVE(glm_##base##_rh_no)) { bool lh = 0, zo = 0; FILL(m); F(glm_##base##_rh_no) args; near(r, #base "_rh_no", m, exp, K); } if (HAVE(glm_##base##_rh_zo)) { bool lh = 0, zo = 1; FILL(m); F(glm_##base##_rh_zo) args; near(r, #base "_rh_zo", m, exp, K); } }
static const FV &NN() { static FV v = {0.01f, 0.1f, 1.f, 3.f, 10.f, 0.5f, 80.f, 2e-3f, 4000.f, 2e-4f, 3e5f}; return v; }
static const FV &FFA() { static FV v = {2.f, 50.f, 100.f, 1000.f, 1e4f, 1.5f, 0.05f, 5.f, 1.f, 6e-3f, 300.f, 0.3f, 7e-4f, 2e6f, 1.004f, 0.9997f, 0.0102f}; return v; }
static std::vector<VF<2>> ranges() { return {{{-1, 1}}, {{-2, 3}}, {{0, 5}}, {{1, 4}}, {{-7, -2}}, {{0.1f, 0.2f}}, {{1, -1}}, {{-0.01f, 0.03f}}, {{0, 800}}, {{-3, 0}}, {{60, 95}}, {{8, 21}}, {{-2e-3f, -1e-3f}}, {{-300, 4e-3f}}, {{2000, 9000}}, {{-1, 1.003f}}, {{-0.9982f, 1}}, {{-5.002f, 5}}, {{-0.9997f, 1.0003f}}, {{2e-3f, 1}}}; }
SITE(frustum) { for (auto &x : ranges()) for (auto &y : ranges()) for (float n : NN()) for (float f : FFA()) { if (n == f) continue; r.tick(); A32 float m[16]; r.show("left,right", x.a, 2); r.show("bottom,top", y.a, 2); r.show("near", n); r.show("far", f); CALLV(frustum, (x.a[0], x.a[1], y.a[0], y.a[1], n, f, m), frustumM(lh, zo, x.a[0], x.a[1], y.a[0], y.a[1], n, f), 16) } }
SITE(perspective) { for (float fov : {0.1f, 0.5f, (float)M_PI / 4, (float)M_PI / 3, (float)M_PI / 2, 2.f, 2.5f, 3.f, 1.f, 5e-3f, 3.1f, 1.5f, 0.02f, 1.5806f, 1.5688f, 3.139f, 0.7874f}) for (float a : {1.f, 1.7777778f, 0.5f, 2.f, 0.75f, 10.f, 0.1f, 70.f, 6e-3f, 0.99f, 1.003f, 0.9998f}) for (float n : NN()) for (float f : FFA()) { if (n == f) continue; r.tick(); A32 float m[16]; r.show("fovy", fov); r.show("aspect", a); r.show("near", n); r.show("far", f); CALLV(perspective, (fov, a, n, f, m), perspM(lh, zo, fov, a, n, f), 16) } }
SITE(ortho) { for (auto &x : ranges()) for (auto &y : ranges()) for (float n : {0.01f, 1.f, -100.f, 0.f, -1.f, 3.f, 60.f, 5e-3f, -7e-3f, -5000.f, 9.f}) for (float f : {100.f, 2.f, 1.f, -5.f, 1000.f, 0.f, 0.4f, 3e-3f, 2e4f, 1.004f, 0.9997f, 99.98f}) { if (n == f) continue; r.tick(); A32 float m[16]; r.show("left,right", x.a, 2); r.show("bottom,top", y.a, 2); r.show("near", n); r.show("far", f); CALLV(ortho, (x.a[0], x.a[1], y.a[0], y.a[1], n, f, m), orthoM(lh, zo, x.a[0], x.a[1], y.a[0], y.a[1], n, f), 16) } }
SITE(defaults) { for (float a : {1.f, 0.5f, 2.f, 1.7777778f, 0.1f, 10.f, 0.99999994f, 1.0000001f, 0.75f, 3.f, 80.f, 5e-3f, 0.99f, 1.01f, 6000.f, 300.f, 5e4f, 4e-4f, 2e-5f, 30.f, 1.003f, 0.998f, 1.0003f, 0.9998f}) { r.tick(); A32 float m[16]; r.show("aspect", a); CALLV(perspective_default, (a, m), perspM(lh, zo, R(M_PI / 4), a, R(0.01f), R(100)), 16) R w = a >= 1 ? R(a) : R(1), h = a >= 1 ? R(1) : R(1) / R(a); CALLV(ortho_default, (a, m), orthoM(lh, zo, -w, w, -h, h, R(-100), R(100)), 16)
    for (float s : {1.f, 5.f, 0.3f, 100.f, 2.5f, 4e-3f, 9.f, 5000.f, 70.f, 0.f, -0.5f, -40.f, 500.f, 5e4f, 2e6f, -3000.f, 3e-4f, -6e-3f, 1.004f, 0.9997f, -1.002f}) { r.show("size", s); R W = w * R(s), H = h * R(s), z = R(s) + R(100); CALLV(ortho_default_s, (a, s, m), orthoM(lh, zo, -W, W, -H, H, -z, z), 16) } } }
// the box is exactly filled: in view space a left-handed viewer sees +Z, a right-handed one -Z
static M4 boxM(bool lh, bool zo, const float *b, float px, float pz) { R lo = R(b[2]) - R(pz), hi = R(b[5]) + R(pz); return orthoM(lh, zo, R(b[0]) - R(px), R(b[3]) + R(px), R(b[1]) - R(px), R(b[4]) + R(px), lh ? lo : -hi, lh ? hi : -lo); }
SITE(ortho_boxes) { auto X = ranges(); X.erase(X.begin() + 6); for (auto &x : X) for (auto &y : X) for (auto &z : X) for (float p : {0.f, 1.f, 0.25f, 10.f, -0.005f, -2.f, 100.f, 6e-3f, 3e-4f, 5.f, 700.f, 3e4f, -0.3f, -60.f}) { r.tick(); A32 float b[6] = {x.a[0], y.a[0], z.a[0], x.a[1], y.a[1], z.a[1]}, m[16]; r.show("box", b, 6); r.show("padding", p); CALLV(ortho_aabb, (b, m), boxM(lh, zo, b, 0, 0), 16) CALLV(ortho_aabb_p, (b, p, m), boxM(lh, zo, b, p, p), 16) CALLV(ortho_aabb_pz, (b, p, m), boxM(lh, zo, b, 0, p), 16) } }
// every pair of unequal bounds of a wide alphabet, in each axis, next to an unrelated pair in the other
SITE(extents) { const FV V = {0.f, 1.f, -1.f, 0.5f, -0.5f, 7.f, -7.f, 60.f, -60.f, 1920.f, -1920.f, 5000.f, -5000.f, 0.005f, -0.005f, 150.f, -150.f, 3e5f, -3e5f, 4e-4f, -4e-4f, 2e-5f, -2e-5f, 3e6f, -3e6f, 1.003f, -0.998f, 0.9997f, 60.01f}; std::vector<VF<2>> E; for (float a : V) for (float b : V) if (a != b) E.push_back({{a, b}});
  const float NF[][2] = {{0.1f, 100}, {1, 2}, {50, 0.5f}, {0.004f, 3000}, {7, 60}, {2e-4f, 3e5f}, {900, 2e4f}, {1e5f, 3e6f}, {3e-5f, 6e-4f}}, OF[][2] = {{-1, 1}, {0, 100}, {0.1f, 1000}, {50, -50}, {-3000, 0.004f}, {1, 0}, {-2e4f, 5e5f}, {-1e-4f, 2e-4f}, {300, 700}, {-4e6f, -3e4f}}; int k = 0;
  for (size_t i = 0; i < E.size(); i++) for (int d = 0; d < 14; d++) { auto &x = E[i], &y = E[(i * 11 + d * 17 + 5) % E.size()]; k++; { r.tick(); const float *nf = NF[k % 9]; A32 float m[16]; r.show("left,right", x.a, 2); r.show("bottom,top", y.a, 2); r.show("near,far", nf, 2); CALLV(frustum, (x.a[0], x.a[1], y.a[0], y.a[1], nf[0], nf[1], m), frustumM(lh, zo, x.a[0], x.a[1], y.a[0], y.a[1], nf[0], nf[1]), 16) }
    { r.tick(); const float *nf = OF[k % 10]; A32 float m[16]; r.show("left,right", x.a, 2); r.show("bottom,top", y.a, 2); r.show("near,far", nf, 2); CALLV(ortho, (x.a[0], x.a[1], y.a[0], y.a[1], nf[0], nf[1], m), orthoM(lh, zo, x.a[0], x.a[1], y.a[0], y.a[1], nf[0], nf[1]), 16) }
    { r.tick(); const auto &z = E[(i * 13 + d * 29 + 7) % E.size()]; A32 float b[6], m[16]; const float *s[3] = {x.a, y.a, z.a}; for (int j = 0; j < 3; j++) { b[j] = std::min(s[j][0], s[j][1]); b[3 + j] = std::max(s[j][0], s[j][1]); } r.show("box", b, 6); CALLV(ortho_aabb, (b, m), boxM(lh, zo, b, 0, 0), 16) } } }
int main(int c, char **v) { return cglmv_main(c, v); }
