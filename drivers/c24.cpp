// C24: view frustum extraction
// API: frustum_planes frustum_corners frustum_corners_at frustum_center frustum_box plane_normalize
#include "ref.hpp"
#define FILL(d) for (float &x_ : d) x_ = 12345.f
struct Cam { float a[16]; bool sym; };
static std::vector<Cam> cams() { std::vector<Cam> o; int id = 0; for (double fov : {0.5, 1.2, 2.0}) for (double asp : {1.0, 1.6, 0.6}) for (double n : {0.1, 1.0}) for (double f : {20.0, 100.0}) for (int kind = 0; kind < 4; kind++) { id++; M<4, 4> P = zeroM<4, 4>(); double g = 1 / tan(fov / 2); double s = kind == 1 ? 1 : -1; P(0, 0) = R(g / asp); P(1, 1) = R(g); P(2, 2) = R(s * (f + n) / (f - n)); P(2, 3) = R(s); P(3, 2) = R(-2 * f * n / (f - n)); if (kind == 2) { P(2, 0) = R(0.3); P(2, 1) = R(-0.2); } if (kind == 3) { P = idM<4>(); P(0, 0) = R(0.2 / asp); P(1, 1) = R(0.2); P(2, 2) = R(-2 / (f - n)); P(3, 2) = R(-(f + n) / (f - n)); } float ax[3] = {0.3f, 1, (float)(id % 5 - 2)}, tr[3] = {(float)(id % 7) - 3, -1, (float)(id % 3)}; auto V = id % 6 == 0 ? idM<4>() : mulM(transM(tr), rotM(0.37 * id, ax)); Cam c; stf<4>(mulM(P, V), c.a); c.sym = kind != 2; o.push_back(c); }
  // the same view-projections up to a factor, and worlds in other units
  size_t n0 = o.size(); int j = 0; for (double s : {1e-3, 0.05, 40.0, 3e3, -1.0}) for (size_t i = 0; i < n0; i += 13) { Cam c = o[i]; for (float &x : c.a) x = (float)(x * s); o.push_back(c); if (s > 0) { c = o[(i + j++) % n0]; for (int k = 0; k < 12; k++) c.a[k] = (float)(c.a[k] / s); o.push_back(c); } } { auto Z = nearmats(4); for (size_t k = 0; k < Z.size(); k += 4) { R d = detM(exactM(ld<4, 4>(Z[k].a))); if (fabs(d.v) > 3e-2 * d.m) { Cam c; memcpy(c.a, Z[k].a, 64); c.sym = false; o.push_back(c); } } } return o; }
static const double CUSTOM[8][3] = {{-2, -3, 0.25}, {-1.5, 2.5, 0}, {1.25, 3.5, 0.125}, {2.25, -0.5, -0.25}, {-1, -1.75, 0.75}, {-3, 1, 0.875}, {0.5, 0.75, 1.5}, {2.75, -2, 2}}; // lib/customclip.h
static const int CS[8][3] = {{-1, -1, -1}, {-1, 1, -1}, {1, 1, -1}, {1, -1, -1}, {-1, -1, 1}, {-1, 1, 1}, {1, 1, 1}, {1, -1, 1}};
SITE(planes) { if (r.cfg == "customclip") return; if (!HAVE(glm_frustum_planes)) return; auto P = product<3>({0.f, 1.f, -3.f, 10.f, -30.f}); for (auto &c : cams()) { A32 float m[16], d[24]; memcpy(m, c.a, 64); FILL(d); F(glm_frustum_planes)(m, d); for (auto &p : P) { r.tick(); r.show("m", m, 16); r.show("point", p.a, 3); for (int k = 0; k < 6; k++) { int ax = k / 2; double sg = k & 1 ? -1 : 1, e[4], mg = 0, n = 0; for (int j = 0; j < 4; j++) { e[j] = (double)m[j * 4 + 3] + sg * m[j * 4 + ax]; if (j < 3) n += e[j] * e[j]; mg = std::max(mg, fabs((double)m[j * 4 + 3]) + fabs((double)m[j * 4 + ax])); } n = sqrt(n); if (n < 1e-3 * mg) continue; for (int j = 0; j < 4; j++) r.near("plane coefficient", d[k * 4 + j], R(e[j] / n, mg / n + fabs(e[j] / n) * mg / n), 16);
      double dist = d[k * 4 + 3], dm = fabs(d[k * 4 + 3]), cl = m[12 + ax], cw = m[15], cm = fabs(m[12 + ax]) + fabs(m[15]); for (int j = 0; j < 3; j++) { dist += (double)d[k * 4 + j] * p.a[j]; dm += fabs((double)d[k * 4 + j] * p.a[j]); cl += (double)m[j * 4 + ax] * p.a[j]; cw += (double)m[j * 4 + 3] * p.a[j]; cm += fabs(m[j * 4 + ax] * p.a[j]) + fabs(m[j * 4 + 3] * p.a[j]); } double in = cw + sg * cl; if (fabs(in) > 1e-4 * cm && fabs(dist) > 1e-4 * dm) r.eqi("inside exactly when the clip test holds", dist > 0, in > 0); } } } }
static bool corners(Run &r, const float *c, float *inv, float *d) { if (!HAVE(glm_frustum_corners)) return false; auto I = invM(exactM(ld<4, 4>(c))); stf<4>(I, inv); for (int k = 0; k < 32; k++) d[k] = 12345.f; F(glm_frustum_corners)(inv, d); return true; }
SITE(corners) { if (r.cfg == "customclip") return; for (auto &c : cams()) { r.tick(); A32 float inv[16], d[32], ce[4]; if (!corners(r, c.a, inv, d)) return; r.show("inv", inv, 16); auto I = ld<4, 4>(inv); R sum[4]; for (int k = 0; k < 8; k++) { R q[4]; for (int w = 0; w < 4; w++) { q[w] = I(3, w); for (int j = 0; j < 3; j++) q[w] += I(j, w) * R(CS[k][j]); } for (int w = 0; w < 4; w++) r.near("corner", d[k * 4 + w], w == 3 ? R(1) : q[w] / q[3], 16); for (int w = 0; w < 4; w++) sum[w] += R(d[k * 4 + w]); }
    if (HAVE(glm_frustum_center)) { FILL(ce); F(glm_frustum_center)(d, ce); for (int w = 0; w < 4; w++) r.near("center", ce[w], sum[w] * R(0.125), 16); }
    if (HAVE(glm_frustum_box)) for (auto &mm : plusnear(mats(4, 4, 10), 4, 9)) { A32 float m[16], b[6]; memcpy(m, mm.a, 64); FILL(b); F(glm_frustum_box)(d, m, b); for (int w = 0; w < 3; w++) { R lo, hi; double mg = 0; for (int k = 0; k < 8; k++) { R q(0); for (int j = 0; j < 4; j++) q += R(m[j * 4 + w]) * R(d[k * 4 + j]); mg = std::max(mg, q.m); if (!k || q.v < lo.v) lo = q; if (!k || q.v > hi.v) hi = q; } r.near("box min", b[w], R(lo.v, mg), 16); r.near("box max", b[3 + w], R(hi.v, mg), 16); } } } }
// unprojection by any invertible matrix
SITE(corners_projective) { if (!HAVE(glm_frustum_corners)) return; auto MM = plusnear(mats(4, 4, 120), 4); for (float s : {0.02f, 50.f}) for (int i = 0; i < 12; i++) { FM m = MM[7 * i + 3]; for (float &x : m.a) x *= s; MM.push_back(m); } for (size_t i = 0; i < 40; i++) { FM m; for (int k = 0; k < 16; k++) m.a[k] = dv(17 * i + k) * (k % 4 == 3 ? k == 15 ? 8 : 0.6f : 2); if (fabsf(m.a[15]) < 4) m.a[15] = 5; MM.push_back(m); }
  for (auto &mm : MM) { r.tick(); A32 float inv[16], d[32]; memcpy(inv, mm.a, 64); auto I = ld<4, 4>(inv); bool ok = true; R q[8][4]; for (int k = 0; k < 8; k++) { for (int w = 0; w < 4; w++) { q[k][w] = I(3, w); for (int j = 0; j < 3; j++) q[k][w] += I(j, w) * R(r.cfg == "customclip" ? CUSTOM[k][j] : CS[k][j]); } ok &= fabs(q[k][3].v) > 0.02 * q[k][3].m; } if (!ok) continue; FILL(d); r.show("inv", inv, 16); F(glm_frustum_corners)(inv, d); for (int k = 0; k < 8; k++) for (int w = 0; w < 4; w++) r.near("corner", d[k * 4 + w], w == 3 ? R(1) : q[k][w] / q[k][3], 16); } }
// split corners of any corner set: the fraction applies to the edge lengths, which the four edges share
SITE(corners_at_scaled) { if (r.cfg == "customclip") return; if (!HAVE(glm_frustum_corners_at)) return; for (auto &c : product<3>({0.f, 3.f, -20.f, 0.01f})) for (float h : {1.f, 0.02f, 30.f, 4e-3f, 1000.f}) for (float dep : {1.f, 0.01f, 250.f}) for (float far : {10.f, 0.5f, 4e-3f, 800.f, -5.f, 1.f, -0.3f, 6000.f, 1.003f}) for (float t : {0.f, 1.f, 0.3f, -0.5f, 2.f, 0.01f, 30.f, 2e-4f, -8.f, 0.98f, 0.9997f, 1.003f, -3e-3f}) { r.tick(); A32 float d[32], o[16]; for (int k = 0; k < 8; k++) { float s = k < 4 ? h * 0.25f : h; d[k * 4] = c.a[0] + (CS[k][0]) * s; d[k * 4 + 1] = c.a[1] + CS[k][1] * s * 0.75f; d[k * 4 + 2] = c.a[2] - (k < 4 ? 0 : dep); d[k * 4 + 3] = 1; } FILL(o); r.show("corners", d, 32); r.show("split", t * far); r.show("far", far); F(glm_frustum_corners_at)(d, t * far, far, o); double len[4], tt = (double)(t * far) / far; for (int k = 0; k < 4; k++) { len[k] = 0; for (int w = 0; w < 3; w++) len[k] += pow((double)d[16 + k * 4 + w] - d[k * 4 + w], 2); len[k] = sqrt(len[k]); } double spread = *std::max_element(len, len + 4) - *std::min_element(len, len + 4); for (int k = 0; k < 4; k++) for (int w = 0; w < 4; w++) { double n = d[k * 4 + w], f = d[16 + k * 4 + w]; r.near("corner at the split distance", o[k * 4 + w], R(n + (f - n) * tt, (fabs(n) + fabs(f)) * (1 + fabs(tt)) + len[k]), 64, 2 * spread * (1 + fabs(tt))); } } }
SITE(corners_at) { if (r.cfg == "customclip") return; if (!HAVE(glm_frustum_corners_at)) return; for (auto &c : cams()) { if (!c.sym) continue; A32 float inv[16], d[32], o[16]; if (!corners(r, c.a, inv, d)) return; for (float far : {100.f, 20.f, 1.f}) for (float t : {0.f, 1.f, 0.5f, 0.25f, 0.1f, 0.9f, 0.98f, 0.996f, 0.9997f, 4e-3f, 3e-4f}) { r.tick(); FILL(o); r.show("corners", d, 32); r.show("fraction", t); F(glm_frustum_corners_at)(d, t * far, far, o); double len[4]; for (int k = 0; k < 4; k++) { len[k] = 0; for (int w = 0; w < 3; w++) len[k] += pow((double)d[16 + k * 4 + w] - d[k * 4 + w], 2); len[k] = sqrt(len[k]); } double spread = *std::max_element(len, len + 4) - *std::min_element(len, len + 4); /* float corners: the four edges only agree to rounding */ for (int k = 0; k < 4; k++) for (int w = 0; w < 4; w++) { double n = d[k * 4 + w], f = d[16 + k * 4 + w]; r.near("corner at the split distance", o[k * 4 + w], R(n + (f - n) * t, fabs(n) + fabs(f) + 30), 64, 2 * spread); } } } }
// box corners by hand-made corner sets: every vertex of a cuboid in every axis permutation
SITE(box_sets) { if (r.cfg == "customclip") return; if (!HAVE(glm_frustum_box)) return; int perm[8] = {0, 1, 2, 3, 4, 5, 6, 7}; for (int rot = 0; rot < 8; rot++) for (auto &v : plus<3>(product<3>({1.f, -2.f, 50.f, -1e3f}))) for (auto &w : product<3>({0.5f, 3.f, 0.01f})) { r.tick(); A32 float d[32], id[16] = {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}, b[6]; for (int k = 0; k < 8; k++) { int q = perm[(k + rot) % 8]; for (int j = 0; j < 3; j++) d[k * 4 + j] = v.a[j] + (q >> j & 1 ? w.a[j] : 0); d[k * 4 + 3] = 1; } r.show("corners", d, 32); FILL(b); F(glm_frustum_box)(d, id, b); for (int j = 0; j < 3; j++) { r.near("min", b[j], R(v.a[j], fabs(v.a[j]) + w.a[j]), 4); r.near("max", b[3 + j], R((double)v.a[j] + w.a[j], fabs(v.a[j]) + w.a[j]), 4); } } }
SITE(plane_normalize) { if (r.cfg == "customclip") return; if (!HAVE(glm_plane_normalize)) return; auto VV = product<4>({0.f, 1.f, -2.f, 0.3f, 100.f, 1e-3f, -1e4f}); for (auto &z : nearunit()) for (float w : {0.f, 1.f, -30.f, 2e-3f}) VV.push_back({{z.a[0], z.a[1], z.a[2], w}}); for (auto &v : VV) { r.tick(); A32 float p[4]; memcpy(p, v.a, 16); r.show("plane", p, 4); F(glm_plane_normalize)(p); double n = sqrt((double)v.a[0] * v.a[0] + (double)v.a[1] * v.a[1] + (double)v.a[2] * v.a[2]); for (int k = 0; k < 4; k++) if (n == 0) r.eqf("degenerate plane becomes zero", p[k], 0); else r.near("normalized", p[k], R(v.a[k] / n), 16); } }
int main(int c, char **v) { return cglmv_main(c, v); }
