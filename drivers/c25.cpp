// C25: 3D boxes
// API: aabb_*
#include "ref.hpp"
#define N 3
#define MN 4
#define PX(f) glm_aabb_##f
#define SIZE glm_aabb_size
#define BALL glm_aabb_sphere
#define EXTRA_SINGLE
#include "box.inc"
// culling: a box is culled exactly when it lies entirely outside one plane
SITE(frustum) { if (!HAVE(glm_aabb_frustum)) return; std::vector<VF<4>> PL = product<4>({1.f, -1.f, 0.f, 3.f}); auto B = boxes(6);
  for (float sc : {1.f, 1.f / 64, 1.f / 1024, 32.f, 4096.f, 131072.f}) for (size_t bi = 0; bi < B.size(); bi += sc == 1 ? 2 : 5) for (size_t pi = 0; pi < PL.size(); pi++) for (int at = 0; at < 6; at++) { r.tick(); A32 float a[6], p[24], pl[4]; memcpy(a, &B[bi], 24); memcpy(pl, PL[pi].a, 16); pl[3] *= sc; for (float &y : a) y *= sc; if (bi % 3 == 1) for (float &y : pl) y *= 1.f / 256; for (int k = 0; k < 6; k++) { float q[4] = {0, 0, 1, 5e9f}; memcpy(p + 4 * k, k == at ? pl : q, 16); } double mx = -1e30; for (int c = 0; c < 8; c++) { double e = pl[3]; for (int j = 0; j < 3; j++) e += pl[j] * (double)a[(c >> j & 1) * 3 + j]; mx = std::max(mx, e); } r.show("box", a, 6); r.show("planes", p, 24); r.eqi("kept unless entirely outside a plane", F(glm_aabb_frustum)(a, p), mx >= 0); }
  // all pairs of two constraining planes on one box
  for (size_t i = 0; i < PL.size(); i += 3) for (size_t j = 0; j < PL.size(); j += 5) for (size_t bi = 0; bi < B.size(); bi += 17) { r.tick(); A32 float a[6], p[24]; memcpy(a, &B[bi], 24); for (int k = 0; k < 6; k++) { float q[4] = {0, 1, 0, 5000}; memcpy(p + 4 * k, k == 1 ? PL[i].a : k == 4 ? PL[j].a : q, 16); } bool in = true; for (size_t z : {i, j}) { double mx = -1e30; for (int c = 0; c < 8; c++) { double e = PL[z].a[3]; for (int w = 0; w < 3; w++) e += PL[z].a[w] * (double)a[(c >> w & 1) * 3 + w]; mx = std::max(mx, e); } in &= mx >= 0; } r.show("box", a, 6); r.show("planes", p, 24); r.eqi("kept unless outside one of two planes", F(glm_aabb_frustum)(a, p), in); } }
// planes that almost touch the box at its nearest corner
SITE(frustum_near) { if (!HAVE(glm_aabb_frustum)) return; auto B = boxes(6); std::vector<VF<3>> D = product<3>({1.f, -1.f, 0.f, 3e-3f, -0.6f}); int q = 0; for (size_t bi = 0; bi < B.size(); bi += 3) for (auto &d : D) { double n = fabs(d.a[0]) + fabs(d.a[1]) + fabs(d.a[2]); if (n == 0) continue; for (int at = 0; at < 6; at++) { r.tick(); A32 float a[6], p[24]; memcpy(a, &B[bi], 24); const float sc = SC[q % 9]; for (float &y : a) y *= sc; double mx = 0, mg = 0; for (int j = 0; j < 3; j++) { mx += d.a[j] * (double)(d.a[j] > 0 ? a[3 + j] : a[j]); mg += fabs(d.a[j]) * (fabs(a[j]) + fabs(a[3 + j])); } for (int k = 0; k < 6; k++) { float f[4] = {0, 0, 1, 5e9f}; if (k == at) { memcpy(f, d.a, 12); f[3] = (float)(-mx + NEARD[q++ % 6] * (mg + 1e-3 * sc)); mx += f[3]; mg += fabs(f[3]); } memcpy(p + 4 * k, f, 16); } if (fabs(mx) < 1e-5 * mg) continue; r.show("box", a, 6); r.show("planes", p, 24); r.eqi("kept unless entirely outside a plane", F(glm_aabb_frustum)(a, p), mx >= 0); } } }
int main(int c, char **v) { return cglmv_main(c, v); }
