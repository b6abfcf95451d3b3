// C28: ray queries
// API: ray_*
#include "ref.hpp"
#define FILL(d) for (float &x_ : d) x_ = 12345.f
typedef double D3[3];
static void dcross(const double *a, const double *b, double *o) { o[0] = a[1] * b[2] - a[2] * b[1]; o[1] = a[2] * b[0] - a[0] * b[2]; o[2] = a[0] * b[1] - a[1] * b[0]; }
static double ddot(const double *a, const double *b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
// symmetric image k of a scene: one of the 48 axis permutations with sign changes, then one of 7 displacements (float rounding of the moved points is part of the scene)
static void image(int k, std::initializer_list<float *> pts, std::initializer_list<float *> dirs) { static const int P[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {1, 0, 2}, {0, 2, 1}, {2, 1, 0}}; static const float T[7][3] = {{0, 0, 0}, {-40, -25, -60}, {30, 50, 20}, {-7, 8, 0.5f}, {300, -3, 11}, {2, -9, -4}, {-0.5f, 0, 700}};
  auto f = [&](float *v, bool pt) { float o[3]; for (int j = 0; j < 3; j++) o[j] = v[P[k % 6][j]] * (k / 6 % 8 >> j & 1 ? -1.f : 1.f) + (pt ? T[k % 7][j] : 0.f); memcpy(v, o, 12); }; for (float *v : pts) f(v, true); for (float *v : dirs) f(v, false); }
SITE(at) { if (!HAVE(glm_ray_at)) return; auto O = product<3>({0.f, 1.f, -2.5f, 100.f}); auto Z = sized<3>(); for (size_t i = 0; i < Z.size(); i += 2) O.push_back(Z[i]); for (auto &o : O) for (auto &q : O) for (float t : {0.f, 1.f, -1.f, 0.5f, 3.7f, 1e4f, -250.f, 4e-3f, -6e-4f}) { r.tick(); A32 float a[3], b[3], d[3]; memcpy(a, o.a, 12); memcpy(b, q.a, 12); FILL(d); r.show("origin", a, 3); r.show("direction", b, 3); r.show("t", t); F(glm_ray_at)(a, b, t, d); for (int k = 0; k < 3; k++) r.near("point on the ray", d[k], R(a[k]) + R(b[k]) * R(t), 4); } }
SITE(triangle) { if (!HAVE(glm_ray_triangle)) return; std::vector<std::vector<float>> T = {{0, 0, 0, 1, 0, 0, 0, 1, 0}, {0, 0, 0, 0, 1, 0, 1, 0, 0}, {1, 0, 0, 0, 1, 0, 0, 0, 1}, {-2, -1, 3, 4, 0, 2, 1, 5, -1}, {0, 0, 5, 0, 3, 5, 3, 0, 6}, {-1, -1, -1, 2, -1, 0.5f, -1, 2, 1}, {10, 0, 0, 10, 1, 0, 10, 0, 1}, {0, 0, 0, 1, 1, 1, 2, 2, 2}, {1, 1, 1, 1, 1, 1, 0, 0, 2}, {0, 0, 0, 0.1f, 0, 0, 0, 0.1f, 0}, {0, 0, 0, 100, 0, 3, 0, 100, -3}};
  auto O = product<3>({0.f, 0.3f, -1.7f, 5.f}); auto Q = product<3>({0.f, 1.f, -1.f, 0.35f, -0.15f});
  const float SCALE[] = {1, 0.02f, 60, 3e-3f, 900, 1, 1, 0.02f, 60, 60, 0.05f, 1, 5e-3f, 1.6e-3f}, OS[] = {0.01f, 20, 40}; const float LEN[] = {1, 1, 0.1f, 40};
  int scene = 0; for (int si = 0; si < 14; si++) for (auto &t : T) for (size_t oi = 0; oi < O.size(); oi += si ? (si == 5 || si == 6 ? 2 : 7) : 1) for (size_t qi = 0; qi < Q.size() + 24; qi++) { A32 float a[3], b[3], v0[3], v1[3], v2[3]; memcpy(a, O[oi].a, 12); memcpy(v0, &t[0], 12); memcpy(v1, &t[3], 12); memcpy(v2, &t[6], 12); for (float *z : {a, v0, v1, v2}) for (int j = 0; j < 3; j++) z[j] *= z == a && si > 8 && si < 12 ? OS[si - 9] : SCALE[si];
      if (qi < Q.size()) memcpy(b, Q[qi].a, 12); else { int k = qi - Q.size(); double w[3] = {(k % 4 + 1) * 0.2, (k / 4 + 1) * 0.1, 0}; if (k >= 12) { /* just inside or outside an edge or a corner */ double e = NEARD[k % 6]; int c = (k + scene + (int)oi) % 3; w[c] = e; w[(c + 1) % 3] = k < 18 ? 0.4 : 1 - 2 * fabs(e); w[(c + 2) % 3] = 1 - w[c] - w[(c + 1) % 3]; } else w[2] = 1 - w[0] - w[1]; double sgn = k % 5 == 4 ? -1 : 1, n = 0, z[3]; for (int j = 0; j < 3; j++) { z[j] = sgn * (w[0] * v0[j] + w[1] * v1[j] + w[2] * v2[j] - a[j]); n += z[j] * z[j]; } n = sqrt(n); if (n < 1e-6) continue; for (int j = 0; j < 3; j++) b[j] = (float)(z[j] / n); }
      { float ln = SCALE[si] < 0.1f && si < 12 ? 1 / (SCALE[si] * SCALE[si]) : LEN[(oi + qi) % 4]; if (si) for (float &x : b) x *= ln; }
      if (si >= 5 && si < 9) image(scene++, {a, v0, v1, v2}, {b});
      if (b[0] == 0 && b[1] == 0 && b[2] == 0) continue; r.tick();
      D3 e1, e2, tv, p, q, dir, nrm; for (int j = 0; j < 3; j++) { e1[j] = (double)v1[j] - v0[j]; e2[j] = (double)v2[j] - v0[j]; tv[j] = (double)a[j] - v0[j]; dir[j] = b[j]; }
      dcross(dir, e2, p); double det = ddot(e1, p); dcross(e1, e2, nrm); double l1 = sqrt(ddot(e1, e1)), l2 = sqrt(ddot(e2, e2)), lt = sqrt(ddot(tv, tv)), ld = sqrt(ddot(dir, dir)), m = l1 * l2 * ld;
      r.show("origin", a, 3); r.show("direction", b, 3); r.show("v0", v0, 3); r.show("v1", v1, 3); r.show("v2", v2, 3);
      if (fabs(det) <= 1e-9 * std::max(m, 1e-30)) { float d = 77; bool h = F(glm_ray_triangle)(a, b, v0, v1, v2, &d); if (det == 0 && m * 1e-6 < 1e-7) r.eqi("no hit for a parallel ray or degenerate triangle", h, 0); else if (det == 0) { if (m < 2) r.eqi("no hit for a parallel ray or degenerate triangle", h, 0); } continue; }
      if (fabs(det) < 1.2e-6 || fabs(det) < 1e-4 * m) continue;
      double u = ddot(tv, p) / det; dcross(tv, e1, q); double v = ddot(dir, q) / det, dist = ddot(e2, q) / det, eu = 1e-5 * (1 + lt * l2 * ld / fabs(det)), ev = 1e-5 * (1 + lt * l1 * ld / fabs(det)), ed = 1e-5 * (1 + lt * l1 * l2 / fabs(det));
      bool hit = u > eu && v > ev && u + v < 1 - eu - ev && dist > 2e-6 + ed, miss = u < -eu || v < -ev || u > 1 + eu || u + v > 1 + eu + ev || dist < -ed; if (!hit && !miss) { // grazing: exact only for the exactly representable axis-aligned case
        continue; }
      float d = 77; bool h = F(glm_ray_triangle)(a, b, v0, v1, v2, &d); if (!r.eqi("hit", h, hit)) continue; if (hit) r.near("distance", d, R(dist, fabs(dist) + lt * l1 * l2 / fabs(det)), 64);
      if (r.surf == "inline" || r.surf == "call") { bool h2 = F(glm_ray_triangle)(a, b, v0, v1, v2, (float *)0); r.eqi("hit without distance", h2, hit); } }
}
SITE(triangle_edges) { if (!HAVE(glm_ray_triangle)) return; // exact: right triangle with axis-parallel rays, borders count as hits
  for (int ax = 0; ax < 3; ax++) for (int flip = 0; flip < 2; flip++) for (float s : {1.f, 4.f, 0.5f}) for (float z : {0.f, 2.f, -8.f}) for (int i = -1; i <= 5; i++) for (int j = -1; j <= 5; j++) for (float from : {-3.f, 3.f}) for (float len : {1.f, -1.f, 2.f, 0.25f}) { r.tick(); A32 float v[3][3] = {{0, 0, 0}, {0, 0, 0}, {0, 0, 0}}, a[3], b[3] = {0, 0, 0}; int x = (ax + 1) % 3, y = (ax + 2) % 3; v[1 + flip][x] = s; v[2 - flip][y] = s; for (auto &q : v) q[ax] = z; a[x] = i * s / 4; a[y] = j * s / 4; a[ax] = z + from; b[ax] = len; float d = 77; bool hit = i >= 0 && j >= 0 && i + j <= 4 && from / len < 0; r.show("origin", a, 3); r.show("direction", b, 3); r.show("v0", v[0], 3); r.show("v1", v[1], 3); r.show("v2", v[2], 3); bool h = F(glm_ray_triangle)(a, b, v[0], v[1], v[2], &d); if (r.eqi("hit, borders included", h, hit) && hit) r.near("distance", d, R(-from / len), 4); } }
SITE(sphere) { if (!HAVE(glm_ray_sphere)) return; auto O = product<3>({0.f, 1.f, -3.f, 0.4f}); auto Q = product<3>({0.f, 1.f, -1.f, 0.5f}); auto C = product<3>({0.f, 2.f, -1.5f});
  const float SS[] = {1, 0.02f, 1e-3f, 50, 2e3f, 1, 0.02f, 50, 1, 1, 1, 30, 2e-5f, 3e5f}; int scene = 0; for (int si = 0; si < 14; si++) for (size_t oi = 0; oi < O.size(); oi += si ? (si == 5 || si == 8 ? 1 : 5) : 1) for (auto &q : Q) for (auto &c : C) for (float rad : {0.5f, 1.f, 2.f, 6.f}) { auto &o = O[oi]; double n = sqrt((double)q.a[0] * q.a[0] + (double)q.a[1] * q.a[1] + (double)q.a[2] * q.a[2]); if (n == 0) continue; r.tick(); A32 float a[3], b[3], s[4]; memcpy(a, o.a, 12); for (int k = 0; k < 3; k++) b[k] = (float)(q.a[k] / n); memcpy(s, c.a, 12); s[3] = rad; const float sc = si == 0 ? 1 : SS[si]; for (float &x : a) x *= si == 9 ? 10 : si == 10 ? 0.005f : si == 11 ? 0.05f : sc; if (si >= 9 && si < 12 && (q.a[0] < 0) == (q.a[1] > 0)) { double w[3], wn = 0; for (int k = 0; k < 3; k++) { w[k] = (double)c.a[k] * sc + 0.4 * q.a[k] * rad * sc - a[k]; wn += w[k] * w[k]; } if (wn > 0) for (int k = 0; k < 3; k++) b[k] = (float)(w[k] / sqrt(wn)); } for (float &x : s) x *= sc; if (si >= 5 && si < 9) image(scene++, {a, s}, {b}); r.show("origin", a, 3); r.show("direction", b, 3); r.show("sphere", s, 4);
      double bb = 0, dp = 0, dd = 0; for (int k = 0; k < 3; k++) { double e = (double)s[k] - a[k]; bb += e * b[k]; dd += e * e; dp += (double)b[k] * b[k]; } double dist2 = std::max(0.0, dd - bb * bb), disc = (double)s[3] * s[3] - dist2, mg = dd + (double)s[3] * s[3];
      float t1 = 55, t2 = 66; bool h = F(glm_ray_sphere)(a, b, s, &t1, &t2); r.show("t1", t1); r.show("t2", t2); if (fabs(disc) < 1e-4 * mg) { if (h) r.ok("distances are numbers", t1 == t1 && t2 == t2 && t1 <= t2); continue; }
      if (disc < 0) { r.eqi("no intersection", h, 0); continue; } double sq = sqrt(disc), e1 = bb - sq, e2 = bb + sq, tol = 1e-5 * (sc + mg / sq); if (fabs(e2) > tol) r.eqi("the sphere is not behind the ray", h, e2 > 0); r.near("entry distance", t1, R(e1, fabs(e1)), 16, tol); r.near("exit distance", t2, R(e2, fabs(e2)), 16, tol); } }
SITE(sphere_tangent) { if (!HAVE(glm_ray_sphere)) return; // exactly representable tangents and surface origins
  for (int ax = 0; ax < 3; ax++) for (float sg : {1.f, -1.f}) for (float rad : {1.f, 2.f, 0.5f}) for (float off : {-8.f, -1.f, 0.f, 2.f, 16.f}) for (float lat : {-1.f, -0.5f, 0.f, 0.5f, 1.f, 1.5f, -2.f}) { r.tick(); A32 float a[3] = {0, 0, 0}, b[3] = {0, 0, 0}, s[4] = {1, 2, -1, rad}; b[ax] = sg; for (int k = 0; k < 3; k++) a[k] = s[k]; a[ax] += off; a[(ax + 1) % 3] += lat * rad; r.show("origin", a, 3); r.show("direction", b, 3); r.show("sphere", s, 4); double disc = rad * rad * (1 - lat * lat), bb = -off * sg; float t1 = 55, t2 = 66; bool h = F(glm_ray_sphere)(a, b, s, &t1, &t2);
      if (disc < 0) { r.eqi("no intersection", h, 0); continue; } double sq = sqrt(disc); r.eqi("hit unless behind", h, bb + sq >= 0); r.near("entry distance", t1, R(bb - sq, fabs(bb) + sq), 16, 1e-6); r.near("exit distance", t2, R(bb + sq, fabs(bb) + sq), 16, 1e-6); } }
// rays that almost touch the sphere, almost start on it or almost pass through its centre
SITE(sphere_near) { if (!HAVE(glm_ray_sphere)) return; auto U = nearunit(); const float S[7] = {1, 0.04f, 30, 2e-3f, 900, 7e4f, 3e-5f}; int q = 0; for (size_t ui = 0; ui < U.size(); ui += 10) for (int t = 0; t < 3; t++) for (float rad : {1.f, 2.f, 0.3f}) for (float off : {-8.f, -1.f, -0.2f, 0.f, 1.f, 3.f}) for (int e = 0; e < 24; e++) { double n[3], w[3], nn = 0, ww; for (int k = 0; k < 3; k++) { n[k] = U[ui].a[k]; nn += n[k] * n[k]; } for (double &x : n) x /= sqrt(nn); double z[3] = {t == 0 ? 1.0 : 0.3, t == 1 ? 1.0 : -0.2, t == 2 ? 1.0 : 0.1}; dcross(n, z, w); ww = sqrt(ddot(w, w)); if (ww < 0.1) continue; for (double &x : w) x /= ww;
    double lat = e < 6 ? 1 + NEARD[e] : e < 12 ? NEARD[e - 6] : 0.4, along = e < 12 ? off : e < 18 ? off : (off < 0 ? -1 : 1) * sqrt(1 - lat * lat) * (1 + NEARD[e - 18]); if (e >= 12 && e < 18) lat = 0.5 + NEARD[e - 12]; const float sc = S[q++ % 7]; A32 float a[3], b[3], s[4] = {1, 2, -1, rad}; for (int k = 0; k < 3; k++) a[k] = (float)(s[k] + rad * (lat * w[k] + along * n[k])); for (float &x : s) x *= sc; for (float &x : a) x *= sc; for (int k = 0; k < 3; k++) b[k] = (float)n[k]; r.tick(); r.show("origin", a, 3); r.show("direction", b, 3); r.show("sphere", s, 4);
    double bb = 0, dd = 0, dp = 0, mg = 0; for (int k = 0; k < 3; k++) { double v = (double)s[k] - a[k]; bb += v * b[k]; dd += v * v; dp += (double)b[k] * b[k]; mg += (fabs(s[k]) + fabs(a[k])) * fabs(v); } double disc = (double)s[3] * s[3] - (dd - bb * bb / dp); mg += dd + (double)s[3] * s[3]; if (fabs(disc) < 4e-6 * mg) continue; float t1 = 55, t2 = 66; bool h = F(glm_ray_sphere)(a, b, s, &t1, &t2); r.show("t1", t1); r.show("t2", t2);
    if (disc < 0) { r.eqi("no intersection", h, 0); continue; } double sq = sqrt(disc), e1 = bb - sq, e2 = bb + sq, tol = 1e-6 * (fabs(bb) + mg / sq + sc); if (fabs(e2) > tol) r.eqi("the sphere is not behind the ray", h, e2 > 0); r.near("entry distance", t1, R(e1, fabs(e1)), 16, tol); r.near("exit distance", t2, R(e2, fabs(e2)), 16, tol); } }
int main(int c, char **v) { return cglmv_main(c, v); }
