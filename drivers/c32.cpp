// C32: gradient noise against the published algorithm (classic Perlin noise, Gustavson) in exact index arithmetic
// API: perlin_*
#include "ref.hpp"
static long pm(long x) { long v = (34 * x + 1) * x % 289; return v < 0 ? v + 289 : v; }
static double fade(double t) { return t * t * t * (t * (t * 6 - 15) + 10); }
static double tis(double r) { return 1.79284291400159 - 0.85373472095314 * r; }
// gradients of hash value i; ties of the step functions (decided by rounding in float) give both alternatives
typedef std::array<double, 4> G;
static void grads(int n, long i, std::vector<G> &o) { auto fr = [](double x) { return x - floor(x); };
  if (n == 2) { double gx = (i % 41) / 41.0 * 2 - 1, gy = fabs(gx) - 0.5, tx = floor(gx + 0.5); gx -= tx; double s = tis(gx * gx + gy * gy); o.push_back({gx * s, gy * s}); }
  if (n == 3) { long k = i % 7, m = i / 7 % 7; double gx0 = k / 7.0, gy0 = m / 7.0 - 0.5, gz = 0.5 - fabs(gx0) - fabs(gy0); bool tie = fabs(gz) < 1e-9; for (int alt = 0; alt <= (tie ? 1 : 0); alt++) { bool sz = tie ? alt : gz <= 0; double gx = gx0, gy = gy0; if (sz) { gx -= gx >= 0 ? 0.5 : -0.5; gy -= gy >= 0 ? 0.5 : -0.5; } double s = tis(gx * gx + gy * gy + gz * gz); o.push_back({gx * s, gy * s, gz * s}); } }
  if (n == 4) { long q = i / 7, w = q / 7; double gx = (i % 7) / 7.0 - 0.5, gy = (q % 7) / 7.0 - 0.5, gz = fr(w / 6.0) - 0.5, gw = 0.75 - fabs(gx) - fabs(gy) - fabs(gz); if (gw <= 0) { gx -= gx >= 0 ? 0.5 : -0.5; gy -= gy >= 0 ? 0.5 : -0.5; } double s = tis(gx * gx + gy * gy + gz * gz + gw * gw); o.push_back({gx * s, gy * s, gz * s, gw * s}); } }
static const std::vector<G> &gtab(int n, long i) { static std::vector<G> T[5][290]; auto &t = T[n][i]; if (t.empty()) { grads(n, i, t); if (i == 0) grads(n, 289, t); } return t; }   // a residue of 0 may come out as 289 in float
template<int N> static void noise(Run &r, float (*f)(float *), const float *p) { A32 float a[N]; memcpy(a, p, sizeof a); long c[N]; double q[N], w[N]; for (int k = 0; k < N; k++) { c[k] = (long)floor((double)a[k]); q[k] = (double)a[k] - c[k]; w[k] = fade(q[k]); }
  std::vector<double> tot = {0}; for (int b = 0; b < 1 << N; b++) { long h = 0; double wt = 1, d[N]; for (int k = 0; k < N; k++) { int hi = b >> k & 1; h = pm(h + c[k] + hi); wt *= hi ? w[k] : 1 - w[k]; d[k] = q[k] - hi; } std::vector<double> v; for (auto &g : gtab(N, h)) { double s = 0; for (int k = 0; k < N; k++) s += g[k] * d[k]; v.push_back(s * wt); } std::vector<double> nt; for (double t : tot) for (size_t z = 0; z < v.size(); z++) { if (z && fabs(v[z] - v[0]) < 1e-7) continue; nt.push_back(t + v[z]); } tot = nt; if (tot.size() > 4096) return; }
  double sc = N == 2 ? 2.3 : 2.2; ++r.calls; float g = f(a); double best = 1e9; for (double t : tot) if (fabs(t * sc - g) < fabs(best - g)) best = t * sc; r.show("point", a, N); r.near("noise", g, R(best, 0), 0, 4e-5); bool lat = true; for (int k = 0; k < N; k++) lat &= q[k] == 0; if (lat) r.near("zero at lattice points", g, R(0), 0, 1e-6); }
SITE(noise2) { if (!HAVE(glm_perlin_vec2)) return; int L = r.thorough ? 160 : 30; for (int x = -L; x <= L; x++) for (int y = -L; y <= L; y++) for (float fx : {0.f, 0.125f, 0.5f, 0.875f}) for (float fy : {0.f, 0.25f, 0.5f, 0.90625f}) { r.tick(); float p[2] = {x + fx, y + fy}; noise<2>(r, (float (*)(float *))r.f.glm_perlin_vec2, p); }
  for (int x = 284; x <= 294; x++) for (int s = 0; s < 8; s++) for (int y : {0, 3, 288, 577}) for (float f : {0.f, 0.25f, 0.75f}) { r.tick(); float p[2] = {(s & 1 ? -1 : 1) * (x + f), (s & 2 ? -1 : 1) * (y + f)}; if (s & 4) std::swap(p[0], p[1]); noise<2>(r, (float (*)(float *))r.f.glm_perlin_vec2, p); } }
SITE(noise3) { if (!HAVE(glm_perlin_vec3)) return; int L = r.thorough ? 16 : 6; for (int c = 0; c < (2 * L + 1) * (2 * L + 1) * (2 * L + 1); c++) for (int k = 0; k < 35; k++) { r.tick(); int z[3] = {c % (2 * L + 1) - L, c / (2 * L + 1) % (2 * L + 1) - L, c / (2 * L + 1) / (2 * L + 1) - L}; float p[3]; for (int j = 0; j < 3; j++) p[j] = z[j] + (k < 27 ? (const float[]){0.f, 0.25f, 0.8125f}[j == 0 ? k % 3 : j == 1 ? k / 3 % 3 : k / 9] : (k - 27) >> j & 1 ? 0.9375f : 0.0625f); noise<3>(r, (float (*)(float *))r.f.glm_perlin_vec3, p); }
  for (int s = 0; s < 8; s++) for (int x = 285; x <= 292; x++) for (float f : {0.f, 0.25f, 0.75f}) for (int ax = 0; ax < 3; ax++) { r.tick(); float p[3] = {1.25f, -2.5f, 3.75f}; p[ax] = x + f; p[(ax + 1) % 3] += s * 72; if (s & 1) p[ax] = -p[ax]; noise<3>(r, (float (*)(float *))r.f.glm_perlin_vec3, p); } }
SITE(noise4) { if (!HAVE(glm_perlin_vec4)) return; int L = r.thorough ? 6 : 3, W = 2 * L + 1; for (int c = 0; c < W * W * W * W; c++) for (int k = 0; k < 20; k++) { r.tick(); int z[4] = {c % W - L, c / W % W - L, c / W / W % W - L, c / W / W / W - L}; float p[4]; for (int j = 0; j < 4; j++) p[j] = z[j] + (k < 16 ? (k >> j & 1 ? 0.875f : 0.125f) : k == 16 ? 0.f : k == 17 ? 0.5f : k == 18 ? 0.0625f * (1 + 4 * j) : 0.9f - 0.2f * j); noise<4>(r, (float (*)(float *))r.f.glm_perlin_vec4, p); }
  for (int s = 0; s < 8; s++) for (int x = 286; x <= 291; x++) for (float f : {0.f, 0.25f, 0.75f}) for (int ax = 0; ax < 4; ax++) { r.tick(); float p[4] = {1.25f, -2.5f, 3.75f, 0.5f}; p[ax] = x + f; p[(ax + 1) % 4] += s * 72; if (s & 1) p[ax] = -p[ax]; noise<4>(r, (float (*)(float *))r.f.glm_perlin_vec4, p); } }
// cells far from the origin (still exact in float) and positions a hair inside a cell
template<int N> static void far(Run &r, float (*f)(float *)) { const float FAR[] = {300, -300, 511, -1000, 4095, -4097, 5000, 10404, -65537, 1e5f, -7e5f, 1048575, 2097150}, FR[] = {0.f, 0.25f, 0.5f, 0.75f}, HAIR[] = {1e-3f, -1e-3f, 1e-5f, -1e-5f, 1e-7f, -1e-7f, 3e-12f, -3e-12f, 1e-30f, 0.999f, 0.99999f, -0.99999f}, O[4] = {1.25f, -2.5f, 3.75f, 0.5f}, Q[4] = {-7.625f, 0.375f, -300.25f, 12.875f};
  for (int ax = 0; ax < N; ax++) for (float x : FAR) for (float g : FR) for (int s = 0; s < 6; s++) { r.tick(); float p[4]; memcpy(p, s % 2 ? Q : O, 16); p[ax] = x + g; if (s >= 2) p[(ax + 1) % N] = (s == 2 ? x : s == 3 ? -x : s == 4 ? 289 : -288) + 0.5f; if (s == 5) for (int k = 0; k < N; k++) if (k != ax) p[k] = -x - 0.25f * k; noise<N>(r, f, p); }
  for (int ax = 0; ax < N; ax++) for (float x : HAIR) for (int base : {0, 1, -1, 6, -41, 288, -289}) for (int s = 0; s < 4; s++) { r.tick(); float p[4]; memcpy(p, s % 2 ? Q : O, 16); p[ax] = base + x; if (s >= 2) for (int k = 0; k < N; k++) p[k] = s == 2 ? x : base + (k % 2 ? x : -x); noise<N>(r, f, p); } }
SITE(far_cells) { if (HAVE(glm_perlin_vec2)) far<2>(r, (float (*)(float *))r.f.glm_perlin_vec2); if (HAVE(glm_perlin_vec3)) far<3>(r, (float (*)(float *))r.f.glm_perlin_vec3); if (HAVE(glm_perlin_vec4)) far<4>(r, (float (*)(float *))r.f.glm_perlin_vec4); }
// neighbouring floats across a cell border
SITE(continuity) { auto C = product<3>({0.f, -3.f, 5.f, 289.f}); for (auto &c : C) for (int ax = 0; ax < 4; ax++) for (float o : {0.25f, 0.6875f}) for (int k = 2; k <= 4; k++) { r.tick(); A32 float p[4] = {c.a[0] + o, c.a[1] + o, c.a[2] + o, 1 + o}, q[4]; if (ax >= k) continue; p[ax] = floorf(p[ax]); memcpy(q, p, 16); q[ax] = nextafterf(q[ax], -1e9f); if (q[ax] == nextafterf(0, -1)) q[ax] = -1e-7f; r.show("point", p, k); r.show("neighbour", q, k); float g = 0, h = 0; if (k == 2 && HAVE(glm_perlin_vec2)) { g = F(glm_perlin_vec2)(p); h = F(glm_perlin_vec2)(q); } if (k == 3 && HAVE(glm_perlin_vec3)) { g = F(glm_perlin_vec3)(p); h = F(glm_perlin_vec3)(q); } if (k == 4 && HAVE(glm_perlin_vec4)) { g = F(glm_perlin_vec4)(p); h = F(glm_perlin_vec4)(q); } r.ok("continuous across the border", fabs(g - h) <= 2e-4); } }
int main(int c, char **v) { return cglmv_main(c, v); }
