// Generic machinery over the whole API: argument pools by parameter type and name, enumeration of argument tuples, calls through thunks.
#pragma once
#include "api.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <cfloat>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <dlfcn.h>
#include <unistd.h>
#include <signal.h>
#include <setjmp.h>
#include <poll.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
typedef void (*gfn)(void **);
struct GLib { std::string cfg, surf, path; gfn *gen; void *h; bool unal, avx; };
static GLib gload(const std::string &a) {
  size_t p = a.find(':'), q = a.find(':', p + 1); GLib l; l.cfg = a.substr(0, p); l.surf = a.substr(p + 1, q - p - 1); l.path = a.substr(q + 1);
  l.h = dlopen(l.path.c_str(), RTLD_NOW | RTLD_LOCAL); if (!l.h) { fprintf(stderr, "%s\n", dlerror()); exit(2); }
  l.gen = (gfn *)dlsym(l.h, "cglm_gen"); if (!l.gen) { fprintf(stderr, "no table\n"); exit(2); }
  l.unal = l.cfg.find("unal") == 0; l.avx = l.cfg.find("avx") != std::string::npos; return l;
}
typedef std::vector<uint32_t> W;               // raw words of one argument
static uint32_t fw(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static float wf(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
static W wv(std::initializer_list<double> l) { W w; for (double d : l) w.push_back(fw((float)d)); return w; }
static W wi(std::initializer_list<int> l) { W w; for (int d : l) w.push_back((uint32_t)d); return w; }
static bool nm(const GParam &p, const char *n) { return !strcmp(p.name, n); }
static bool ct(const GParam &p, const char *n) { return !strcmp(p.ctype, n); }
static bool has(const char *s, const char *t) { return strstr(s, t) != 0; }
typedef std::vector<W> Pool;
static bool isin(const GParam &p) { return p.kind == 'v' || p.dir != 'o'; }
static bool isout(const GParam &p) { return p.kind != 'v' && p.dir != 'i'; }
// 4x4 helpers (column major, double)
typedef std::vector<double> DM;
static DM dI() { DM m(16, 0.0); for (int i = 0; i < 4; i++) m[i * 5] = 1; return m; }
static DM dmul(const DM &a, const DM &b) { DM c(16, 0.0); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) for (int k = 0; k < 4; k++) c[i * 4 + j] += a[k * 4 + j] * b[i * 4 + k]; return c; }
static DM dR(double ang, double x, double y, double z) { double l = sqrt(x * x + y * y + z * z); x /= l; y /= l; z /= l; double c = cos(ang), s = sin(ang), t = 1 - c; DM m = dI(); m[0] = c + x * x * t; m[1] = y * x * t + z * s; m[2] = z * x * t - y * s; m[4] = x * y * t - z * s; m[5] = c + y * y * t; m[6] = z * y * t + x * s; m[8] = x * z * t + y * s; m[9] = y * z * t - x * s; m[10] = c + z * z * t; return m; }
static DM dT(double x, double y, double z) { DM m = dI(); m[12] = x; m[13] = y; m[14] = z; return m; }
static DM dS(double x, double y, double z) { DM m = dI(); m[0] = x; m[5] = y; m[10] = z; return m; }
static DM dP(double fy, double a, double n, double f) { DM m(16, 0.0); double t = 1 / tan(fy / 2); m[0] = t / a; m[5] = t; m[10] = -(f + n) / (f - n); m[11] = -1; m[14] = -2 * f * n / (f - n); return m; }
static DM dinv(DM a) { DM b = dI(); for (int c = 0; c < 4; c++) { int p = c; for (int r = c; r < 4; r++) if (fabs(a[c * 4 + r]) > fabs(a[c * 4 + p])) p = r; for (int k = 0; k < 4; k++) { std::swap(a[k * 4 + c], a[k * 4 + p]); std::swap(b[k * 4 + c], b[k * 4 + p]); } double d = a[c * 4 + c]; for (int k = 0; k < 4; k++) { a[k * 4 + c] /= d; b[k * 4 + c] /= d; } for (int r = 0; r < 4; r++) if (r != c) { double q = a[c * 4 + r]; for (int k = 0; k < 4; k++) { a[k * 4 + r] -= q * a[k * 4 + c]; b[k * 4 + r] -= q * b[k * 4 + c]; } } } return b; }
static W dw(const DM &m) { W w; for (double d : m) w.push_back(fw((float)d)); return w; }
static DM dense(int k) { DM m(16); for (int i = 0; i < 16; i++) m[i] = ((i * 7 + k * 5 + i * i * (k + 2)) % 13 - 6) * 0.37 + (i % 5 == 0 ? 3.1 + k : 0); return m; }
static Pool mats(int c, int r, int variants) { Pool o; for (int k = 0; k < variants; k++) { W w; for (int i = 0; i < c * r; i++) w.push_back(fw((float)(((i * 5 + k * 7 + i * i * (k + 1)) % 11 - 5) * 0.43 + (i / r == i % r ? 2.3 + 0.7 * k : 0)))); o.push_back(w); } W s(c * r, fw(0.f)); for (int i = 0; i < c && i < r; i++) s[i * r + i] = fw(1.f); o.push_back(s); return o; }
// operations defined for affine transforms only (and, for mul_rot, a right factor without translation)
static bool affine(const GFunc &f, const GParam &p) { return ct(p, "mat4") && has(f.header, "affine") && !has(f.header, "affine2d"); }
static bool linear(const GFunc &f, const GParam &p) { return nm(p, "m2") && has(f.name, "mul_rot"); }
static Pool pool(const GFunc &f, const GParam &p) {
  static const Pool V3 = {wv({0.3, -1.7, 2.2}), wv({-2.5, 0.4, 0.9}), wv({0.8, 0.6, 0}), wv({-0.36, 0.48, 0.8}), wv({1, 2, 3}), wv({0, 0, -1}), wv({4.5, -3.25, -0.125}), wv({0, 0, 0}), wv({-7, 11, 13}), wv({1e-3, 2e-3, -3e-3}), wv({0, 1, 0}), wv({123.5, -45.25, 67.125}), wv({0.02, 0.03, -0.01}), wv({-900, 20, 3500}), wv({-1, -2, -3}), wv({1, 1, 1})};
  static const Pool V2 = {wv({0.3, -1.7}), wv({-2.5, 0.4}), wv({0.6, 0.8}), wv({1, 2}), wv({0, 0}), wv({-0.8, 0.6}), wv({4.5, -3.25}), wv({-7, 11}), wv({1e-3, -2e-3}), wv({0, 1}), wv({123.5, -45.25}), wv({0.02, 0.03}), wv({-900, 3500}), wv({-1, -1}), wv({1, 0})};
  static const Pool V4 = {wv({0.3, -1.7, 2.2, 0.7}), wv({-2.5, 0.4, 0.9, -1.3}), wv({0.5, -0.5, 0.5, 0.5}), wv({1, 2, 3, 4}), wv({0, 0, 0, 0}), wv({4.5, -3.25, -0.125, 1}), wv({0, 0, -1, 0}), wv({-7, 11, 13, -17}), wv({1e-3, 2e-3, -3e-3, 4e-3}), wv({10, 20, 640, 480}), wv({123.5, -45.25, 67.125, -9}), wv({0.02, 0.03, -0.01, 0.015}), wv({-900, 20, 3500, 60}), wv({-1, -2, -3, -4}), wv({1, 1, 1, 1})};
  static Pool Q; if (Q.empty()) { double ax[8][4] = {{0.7, 1, 2, -0.5}, {2.9, -1, 0.3, 0.4}, {0, 1, 0, 0}, {1.5707963, 0, 1, 0}, {-1.1, 0.2, -0.7, 1}, {3.1, 1, 1, 1}, {4.2, 0.1, 0.9, -0.3}, {0.05, -0.3, 0.2, 0.9}}; for (auto &a : ax) { double l = sqrt(a[1] * a[1] + a[2] * a[2] + a[3] * a[3]), s = sin(a[0] / 2) / l; Q.push_back(wv({a[1] * s, a[2] * s, a[3] * s, cos(a[0] / 2)})); } Q.push_back(wv({1.5, -2, 0.5, 3})); Q.push_back(wv({-0.1, 0.2, 0.05, -0.3})); Q.push_back(wv({30, -12, 5, 41})); Q.push_back(wv({0, 0, 0, -1})); Q.push_back(wv({0.003, -0.001, 0.002, 0.004})); }
  static Pool M4; if (M4.empty()) { M4.push_back(dw(dmul(dT(1, -2, 3), dR(0.7, 1, 2, -0.5)))); M4.push_back(dw(dense(0))); M4.push_back(dw(dmul(dmul(dT(-4, 0.5, 2), dR(2.1, -1, 0.3, 0.4)), dS(2, 0.5, 1.5)))); M4.push_back(dw(dP(1.1, 1.6, 0.5, 40))); M4.push_back(dw(dense(1))); M4.push_back(dw(dI())); M4.push_back(dw(dmul(dR(-1.3, 0.2, -0.7, 1), dS(-1.5, 2, 0.7)))); M4.push_back(dw(dmul(dP(0.8, 0.75, 0.1, 100), dmul(dR(0.4, 0, 1, 0.2), dT(1, 2, -5))))); M4.push_back(dw(dense(2))); M4.push_back(dw(dinv(dmul(dP(1.1, 1.6, 0.5, 40), dR(0.3, 1, 0, 0))))); M4.push_back(dw(dmul(dmul(dT(200, -3000, 15), dR(1.9, 0.3, 0.2, -1)), dS(60, -40, 25)))); M4.push_back(dw(dmul(dmul(dT(0.02, 0.01, -0.05), dR(-0.6, 1, 1, 0)), dS(0.01, 0.02, 0.005)))); }
  if (p.base == 'i') {
    if (p.kind == 'v') {
      if (ct(p, "glm_euler_seq")) { Pool o; for (int s : {36, 24, 33, 9, 18, 6, 0 << 0 | 1 << 2 | 2 << 4}) o.push_back(wi({s})); return o; }
      if (has(p.name, "col") || has(p.name, "row")) { Pool o; int n = has(f.name, "mat2") ? 2 : has(f.name, "mat3") ? 3 : 4; for (int i = 0; i < n; i++) o.push_back(wi({i})); return o; }
      if (nm(p, "mask")) { Pool o; int n = has(f.name, "vec2") ? 4 : has(f.name, "vec3") ? 64 : 256; for (int i = 0; i < n; i++) { if (has(f.name, "vec2") && ((i & 3) > 1 || (i >> 2) > 1)) continue; if (has(f.name, "vec3") && ((i & 3) > 2 || (i >> 2 & 3) > 2 || (i >> 4) > 2)) continue; o.push_back(wi({i})); } return o; }
      return {wi({3}), wi({-2}), wi({7}), wi({1}), wi({-11}), wi({2147483647 / 4000})};
    }
    Pool o; for (int k = 0; k < 7; k++) { W w; for (int i = 0; i < p.n; i++) { int x = (i * 13 + k * 7 + i * k * 3) % 37 - 18; w.push_back((uint32_t)(x ? x : 5)); } o.push_back(w); } return o;
  }
  if (p.kind == 'v') {
    if (nm(p, "angle") || nm(p, "rot") || nm(p, "rad")) return {wv({0.7}), wv({-2.1}), wv({3.0}), wv({1.5707963}), wv({0}), wv({5.5}), wv({-20}), wv({0.05}), wv({100}), wv({-1.5707963})};
    if (nm(p, "fovy")) return {wv({0.9}), wv({1.6}), wv({0.3})};
    if (nm(p, "aspect")) return {wv({1.6}), wv({0.75}), wv({1})};
    if (nm(p, "nearZ")) return {wv({0.1}), wv({0.5}), wv({2})};
    if (nm(p, "farZ")) return {wv({10}), wv({100}), wv({33.3})};
    if (nm(p, "left") || nm(p, "bottom")) return {wv({-1.5}), wv({-0.4}), wv({-3})};
    if (nm(p, "right") || nm(p, "top")) return {wv({1.2}), wv({2.5}), wv({0.3})};
    if (nm(p, "t") || nm(p, "prm")) return {wv({0.3}), wv({0.75}), wv({0}), wv({1}), wv({0.5}), wv({0.96}), wv({-0.25}), wv({1.5}), wv({-3}), wv({40})};
    if (nm(p, "eta")) return {wv({0.66}), wv({1.5}), wv({1}), wv({1.05})};
    return {wv({0.75}), wv({-1.3}), wv({2.5}), wv({0.2}), wv({1}), wv({-7.25}), wv({0}), wv({15.5}), wv({400}), wv({-0.003}), wv({-1})};
  }
  if (p.arr && ct(p, "vec3")) return {wv({-1, -2, -0.5, 3, 1.5, 2}), wv({0.25, 0.5, -4, 1.25, 5, -1}), wv({-3, 1, 2, -1, 4, 8}), wv({-10, -9, -8, 7, 11, 6})};
  if (p.arr && ct(p, "vec2")) return {wv({-1, -2, 3, 1.5}), wv({0.25, 0.5, 1.25, 5}), wv({-3, 1, -1, 4}), wv({-10, -9, 7, 11})};
  if (p.arr == 6 && ct(p, "vec4")) return {wv({1, 0, 0, 3, -1, 0, 0, 3.5, 0, 1, 0, 2, 0, -1, 0, 2.5, 0, 0, 1, 4, 0, 0, -1, 5}), wv({0.8, 0.6, 0, 1, -0.8, 0.6, 0, 1, 0, 0.6, 0.8, 2, 0, -0.6, 0.8, 2, 0, 0, 1, -0.5, 0, 0, -1, 9})};
  if (p.arr && ct(p, "vec4")) { Pool o; for (int k = 0; k < 3; k++) { W w; for (int i = 0; i < p.n / 4; i++) { int b = i & 3; bool far = i & 4; double x = (b == 2 || b == 3 ? 1 : -1) * (far ? 4.0 + k : 1), y = (b == 1 || b == 2 ? 1 : -1) * (far ? 3.0 : 0.75), z = far ? -10.0 - k : -1; for (double d : {x + 0.5 * k, y - k, z, 1.0}) w.push_back(fw((float)d)); } o.push_back(w); } return o; }
  if (p.arr || ct(p, "float")) { Pool o; for (int k = 0; k < 5; k++) { W w; for (int i = 0; i < p.n; i++) w.push_back(fw((float)(((i * 7 + k * 5 + 3) % 17 - 8) * 0.625 + 0.1 * k + (i == 0 && k == 4 ? 20 : 0)))); o.push_back(w); } return o; }
  if (ct(p, "versor")) return Q;
  if (ct(p, "mat4") && affine(f, p)) { Pool o = {M4[0], M4[2], M4[5], M4[6]}; for (int k = 0; k < 3; k++) { DM d = dense(k); d[3] = d[7] = d[11] = 0; d[15] = 1; o.push_back(dw(d)); } if (linear(f, p)) for (W &w : o) w[12] = w[13] = w[14] = 0; return o; }
  if (ct(p, "mat4")) return M4;
  if (ct(p, "mat3")) { Pool o; for (int k : {0, 1, 2, 6, 4, 5, 8}) { W w; for (int c = 0; c < 3; c++) for (int r = 0; r < 3; r++) w.push_back(M4[k][c * 4 + r]); o.push_back(w); } W t = o[5]; t[6] = fw(3.5f); t[7] = fw(-1.25f); t[0] = fw(0.8f); t[1] = fw(0.6f); t[3] = fw(-0.6f); t[4] = fw(0.8f); o.push_back(t); return o; }
  if (ct(p, "mat2")) return mats(2, 2, 5);
  if (!strncmp(p.ctype, "mat", 3)) return mats(p.ctype[3] - '0', p.ctype[5] - '0', 4);
  if (nm(p, "vp") || nm(p, "viewport")) return {wv({10, 20, 640, 480}), wv({0, 0, 1, 1}), wv({-5, 3, 100, 300})};
  if (p.n == 4) return V4; if (p.n == 3) return V3; if (p.n == 2) return V2;
  Pool o; for (int k = 0; k < 4; k++) { W w; for (int i = 0; i < p.n; i++) w.push_back(fw((float)((i * 3 + k * 5) % 7 - 2.5))); o.push_back(w); } return o;
}
static int walign(const GParam &p, const GLib &l) {   // required alignment of an argument
  if (p.kind == 'v') return 4;
  if (ct(p, "mat4")) return l.avx ? 32 : 16;
  if (l.unal) return 4;
  if (ct(p, "vec4") || ct(p, "versor") || ct(p, "mat2") || ct(p, "mat2x4") || ct(p, "mat3x4")) return 16;
  return 4;
}
typedef std::vector<W> Tuple;                  // one word vector per parameter
// arguments inside the documented domain of the operation
static bool valid(const GFunc &f, const Tuple &t) {
  for (int i = 0; i < f.np; i++) if (isin(f.p[i]) && affine(f, f.p[i])) { const W &w = t[i]; for (int c = 0; c < 4; c++) if (wf(w[c * 4 + 3]) != (c == 3)) return false; if (linear(f, f.p[i])) for (int r = 0; r < 3; r++) if (wf(w[12 + r]) != 0) return false; }
  if (has(f.name, "ray_triangle")) { if (t[2] == t[3] || t[2] == t[4] || t[3] == t[4] || t[0] == t[2] || t[0] == t[3] || t[0] == t[4]) return false; }   // degenerate triangle, ray starting on a vertex
  if (has(f.name, "pickmatrix") && !(wf(t[1][0]) > 0 && wf(t[1][1]) > 0)) return false;   // no region: documented to do nothing
  auto X = [&](int i, int k) { return (double)wf(t[i][k]); };
  auto crossrel = [](const double *a, const double *b, double *c) { c[0] = a[1] * b[2] - a[2] * b[1]; c[1] = a[2] * b[0] - a[0] * b[2]; c[2] = a[0] * b[1] - a[1] * b[0]; double l = sqrt((a[0] * a[0] + a[1] * a[1] + a[2] * a[2]) * (b[0] * b[0] + b[1] * b[1] + b[2] * b[2])), n = sqrt(c[0] * c[0] + c[1] * c[1] + c[2] * c[2]); return l > 0 ? n / l : 0; };
  if (has(f.name, "ray_triangle")) { double e1[3], e2[3], d[3], c[3], q[3]; for (int k = 0; k < 3; k++) { e1[k] = X(3, k) - X(2, k); e2[k] = X(4, k) - X(2, k); d[k] = X(1, k); } if (crossrel(e1, e2, c) < 1e-3) return false; double dt = d[0] * c[0] + d[1] * c[1] + d[2] * c[2], l = sqrt((d[0] * d[0] + d[1] * d[1] + d[2] * d[2]) * (c[0] * c[0] + c[1] * c[1] + c[2] * c[2])); (void)q; if (!(fabs(dt) > 1e-3 * l)) return false; }   // ray in the plane of the triangle
  if (has(f.name, "glm_look")) { bool at = has(f.name, "lookat"); if (f.np == 4 && f.p[2].n == 3) { double d[3], u[3], c[3]; for (int k = 0; k < 3; k++) { d[k] = X(1, k) - (at ? X(0, k) : 0); u[k] = X(2, k); } if (crossrel(d, u, c) < 1e-3) return false; } }   // looking along the up vector
  if (has(f.name, "quat_for")) { bool pt = has(f.name, "forp"); double d[3], u[3], c[3]; for (int k = 0; k < 3; k++) { d[k] = pt ? X(1, k) - X(0, k) : X(0, k); u[k] = X(pt ? 2 : 1, k); } if (crossrel(d, u, c) < 1e-3) return false; }
  auto dots = [&](int i, int j, int n, double &d, double &m) { d = m = 0; for (int k = 0; k < n; k++) { d += X(i, k) * X(j, k); m += fabs(X(i, k) * X(j, k)); } };
  if (has(f.name, "faceforward")) { double d, m; dots(2, 1, f.p[0].n, d, m); if (d != 0 && fabs(d) < 1e-4 * m) return false; }   // the side is decided by rounding
  if (has(f.name, "refract")) { double d, m, e = X(2, 0); dots(1, 1, f.p[0].n, d, m); if (m > 1.5) return false; dots(0, 1, f.p[0].n, d, m); double k = 1 - e * e + e * e * d * d; if (fabs(k) < 1e-3 * (1 + e * e + e * e * m * m)) return false; }   // grazing
  if (has(f.name, "_inv") || has(f.name, "unproject")) for (int i = 0; i < f.np; i++) { int n = ct(f.p[i], "mat4") ? 4 : ct(f.p[i], "mat3") ? 3 : ct(f.p[i], "mat2") ? 2 : 0; if (!n || !isin(f.p[i])) continue; double d = 1, s = 1; DM a(16, 0.0);   // numerically singular
      for (int c = 0; c < n; c++) { double l = 0; for (int r = 0; r < n; r++) { a[c * 4 + r] = wf(t[i][c * n + r]); l += a[c * 4 + r] * a[c * 4 + r]; } s *= sqrt(l); }
      for (int c = 0; c < n; c++) { int p = c; for (int r = c; r < n; r++) if (fabs(a[c * 4 + r]) > fabs(a[c * 4 + p])) p = r; for (int k = 0; k < n; k++) std::swap(a[k * 4 + c], a[k * 4 + p]); d *= a[c * 4 + c]; if (a[c * 4 + c] == 0) break; for (int r = c + 1; r < n; r++) { double q = a[c * 4 + r] / a[c * 4 + c]; for (int k = 0; k < n; k++) a[k * 4 + r] -= q * a[k * 4 + c]; } }
      if (!(fabs(d) > 1e-4 * s)) return false; }
  return true;
}
// every product of reduced pools (at most cap tuples) and every variation of one argument over its full pool
template<class FN> static void tuples(const GFunc &f, long cap, FN fn) {
  int n = f.np; std::vector<Pool> P(n); std::vector<int> sz(n); for (int i = 0; i < n; i++) { if (isin(f.p[i])) P[i] = pool(f, f.p[i]); else P[i] = {W(f.p[i].n, 0x7fa0dead)}; sz[i] = P[i].size(); }
  auto prod = [&] { double t = 1; for (int i = 0; i < n; i++) t *= sz[i]; return t; };
  while (prod() > cap) { int b = 0; for (int i = 0; i < n; i++) if (sz[i] > sz[b]) b = i; if (sz[b] <= 2) break; sz[b]--; }
  if (prod() > 4096) { for (int i = n - 1; i >= 0 && prod() > 4096; i--) sz[i] = 1; }
  std::vector<int> ix(n, 0);
  for (;;) { Tuple t(n); for (int i = 0; i < n; i++) t[i] = P[i][ix[i]]; if (valid(f, t)) fn(t); int k = 0; while (k < n && ++ix[k] == sz[k]) ix[k++] = 0; if (k == n) break; }
  for (int i = 0; i < n; i++) for (int j = sz[i]; j < (int)P[i].size(); j++) { Tuple t(n); for (int k = 0; k < n; k++) t[k] = P[k][k == i ? j : 0]; if (valid(f, t)) fn(t); }
}
// unusual arguments: each float argument of a few base tuples with changed signs, vanishing, equal, permuted, tiny, huge, rounded or non-finite components, special matrices
// and rotations, and every pair of arguments of one shape equal, opposite, almost equal, parallel, perpendicular and almost perpendicular
template<class FN> static void exotic(const GFunc &f, int bases, FN fn) {
  int n = f.np; std::vector<Pool> P(n); for (int i = 0; i < n; i++) { if (isin(f.p[i])) P[i] = pool(f, f.p[i]); else P[i] = {W(f.p[i].n, 0x7fa0dead)}; }
  auto give = [&](const Tuple &t) { if (valid(f, t)) fn(t); };
  for (int b = 0; b < bases; b++) { Tuple T(n); for (int i = 0; i < n; i++) T[i] = P[i][(b * 3 + i) % P[i].size()];
    for (int i = 0; i < n; i++) { if (!isin(f.p[i])) continue; const int m = f.p[i].n; Tuple t = T; auto put = [&] { give(t); t = T; };
      if (f.p[i].base == 'i') { if (ct(f.p[i], "glm_euler_seq") || has(f.p[i].name, "col") || has(f.p[i].name, "row") || nm(f.p[i], "mask") || f.p[i].kind == 'v') continue; for (int v : {0, 1, -1, 40000, -70000}) { for (int k = -1; k < m; k++) { for (int j = 0; j < m; j++) if (k < 0 || j == k) t[i][j] = (uint32_t)v; put(); } } continue; }
      if (m <= 4) for (int s = 1; s < 1 << m; s++) { for (int k = 0; k < m; k++) if (s >> k & 1) t[i][k] ^= 0x80000000u; put(); for (int k = 0; k < m; k++) if (s >> k & 1) t[i][k] = 0; put(); for (int k = 0; k < m; k++) if (s >> k & 1) t[i][k] = t[i][0]; put(); }
      else for (int k = 0; k < m; k++) { t[i][k] ^= 0x80000000u; put(); t[i][k] = 0; put(); }
      for (float s : {1e-5f, 1e-3f, 0.1f, 10.f, 1e4f, 1e8f, 1e-20f}) { for (auto &w : t[i]) w = fw(wf(w) * s); put(); }
      for (int q = 1; q < 4 && q < m; q++) { for (int k = 0; k < m; k++) t[i][k] = T[i][(k + q) % m]; put(); }
      for (auto &w : t[i]) w = fw(roundf(wf(w))); put(); for (auto &w : t[i]) w = fw(copysignf(1, wf(w))); put();
      { double l = 0; for (auto w : t[i]) l += (double)wf(w) * wf(w); if (l > 0 && m <= 4) { for (auto &w : t[i]) w = fw((float)(wf(w) / sqrt(l))); put(); for (double e : {1.004, 0.9997, 1.03}) { for (auto &w : t[i]) w = fw((float)(wf(w) / sqrt(l) * e)); put(); } } }
      if (m <= 4) for (float v : {1.003f, 0.9997f, 1.5806f, 3.139f}) { t[i][0] = fw(v); put(); t[i][m - 1] = fw(v); if (m > 1) put(); for (auto &w : t[i]) w = fw(v); if (m > 1) put(); }
      for (uint32_t s : {0x7f800000u, 0xff800000u, 0x7fc00000u, 0x3f800000u, 0xbf800000u, 0x40490fdbu, 0x3fc90fdbu, 0xbfc90fdbu, 0x40c90fdbu, 0x34000000u, 0x00000001u, 0x7f7fffffu}) { t[i][0] = s; put(); t[i][m - 1] = s; if (m > 1) put(); for (auto &w : t[i]) w = s; if (m > 1 && m <= 4) put(); }
      int N = ct(f.p[i], "mat4") ? 4 : ct(f.p[i], "mat3") ? 3 : ct(f.p[i], "mat2") ? 2 : 0; if (N && !b) {
        auto sp = [&](auto g) { for (int c = 0; c < N; c++) for (int r = 0; r < N; r++) t[i][c * N + r] = fw((float)g(c, r)); put(); };
        for (double s : {2.0, 1.0, 0.25, -1.0}) for (int neg = 0; neg < 8; neg++) sp([&](int c, int r) { return c != r ? 0.0 : c == 3 ? 1.0 : s * (neg >> c & 1 ? -1 : 1); });
        for (int ax = 0; ax < 3; ax++) for (double an : {M_PI / 2, M_PI, -M_PI / 2, M_PI / 4, 2 * M_PI / 3}) for (double s : {1.0, 3.0, -2.0}) { DM R = dmul(dR(an, ax == 0, ax == 1, ax == 2), dS(s, s, s)); sp([&](int c, int r) { return R[c * 4 + r]; }); }
        sp([&](int c, int r) { return (double)(c == r) * (c != 0); }); sp([&](int c, int r) { return (double)(r + 1); }); sp([&](int c, int r) { return (double)(c + 1) * (r + 1); }); sp([&](int c, int r) { return 1.0 + c + r; }); sp([&](int c, int r) { return (double)(c == (r + 1) % N); }); sp([&](int c, int r) { return (double)(c - r) + 2.0 * (c == r); }); for (double s : {1e-7, 1e5}) sp([&](int c, int r) { return c == r ? s : 0; }); for (int z = 0; z < N; z++) { sp([&](int c, int r) { return c == z ? 0.0 : (c == r) + 0.5 * c; }); sp([&](int c, int r) { return r == z ? 0.0 : (c == r) + 0.5 * c; }); }
        // close to the identity, a rigid motion, a uniform scale, a symmetric matrix
        static const double ND[6] = {0.04, -0.03, 4e-3, -2e-3, 3e-4, -2e-4}; DM Q = dmul(dR(0.7, 0.4, 1, -0.3), dS(1, 1, 1)); if (N == 2) Q = dR(0.7, 0, 0, 1); for (int k = 0; k < N * N; k++) for (int u = 0; u < 4; u++) sp([&](int c, int r) { return (u == 0 ? (double)(c == r) : u == 1 ? (c == 3 && r < 3 ? 3 - 2.5 * r : Q[c * 4 + r]) : u == 2 ? (c == r ? (c == 3 ? 1 : 2.5) : c == 3 ? 2.0 + r : 0) : c == r ? -1.5 * (c + 1) : 0.3 * (c + r)) + (c * N + r == k ? ND[(k + u) % 6] : 0); }); }
      if (ct(f.p[i], "versor")) for (double h : {0.0, M_PI / 4, M_PI / 2, M_PI, 3 * M_PI / 4, 1e-4, M_PI / 2 - 1e-4}) for (int ax = 0; ax < 3; ax++) for (double s : {1.0, -1.0}) { t[i] = wv({s * sin(h) * (ax == 0), s * sin(h) * (ax == 1), s * sin(h) * (ax == 2), s * cos(h)}); put(); } }
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { const GParam &p = f.p[i], &q = f.p[j]; if (i == j || !isin(p) || !isin(q) || p.n != q.n || p.base != q.base || strcmp(p.ctype, q.ctype)) continue; Tuple t = T; const int m = p.n; auto put = [&] { give(t); t = T; };
      t[j] = t[i]; put(); if (p.base == 'i') continue; for (float s : {-1.f, 1.001f, -0.999f, 2.f, -3.f, 1e-3f, 1e4f}) { for (int k = 0; k < m; k++) t[j][k] = fw(wf(t[i][k]) * s); put(); }
      if (m < 2 || m > 4 || p.kind == 'v') continue; double d = 0, l = 0, lj = 0; for (int k = 0; k < m; k++) { d += (double)wf(T[i][k]) * wf(T[j][k]); l += (double)wf(T[i][k]) * wf(T[i][k]); lj += (double)wf(T[j][k]) * wf(T[j][k]); } if (l > 0) for (double e : {0.0, 0.01, -0.01, 0.3, -0.3, 0.999, -0.999, 0.99999, -0.99999}) { std::vector<double> o(m); double lo = 0; for (int k = 0; k < m; k++) { o[k] = wf(T[j][k]) - d / l * wf(T[i][k]); lo += o[k] * o[k]; } if (!(lo > 0)) continue; for (double sc : {sqrt(lj), 1.0}) { for (int k = 0; k < m; k++) t[j][k] = fw((float)(sc * (o[k] / sqrt(lo) * sqrt(1 - e * e) + e * wf(T[i][k]) / sqrt(l)))); if (sc == 1.0) for (int k = 0; k < m; k++) t[i][k] = fw((float)(wf(T[i][k]) / sqrt(l))); put(); } } } }
}
// a call with every argument in its own 64-byte aligned slot
struct Slots {
  alignas(64) uint32_t mem[13][48]; void *a[14]; uint32_t ret;
  void set(const GFunc &f, const Tuple &t) { for (int i = 0; i < f.np; i++) { memcpy(mem[i], t[i].data(), 4 * t[i].size()); a[i] = mem[i]; } a[f.np] = &ret; ret = 0x5ca1ab1e; }
};
static std::string words(const GParam &p, const uint32_t *w, int n) { std::string s = std::string(p.name) + "={"; char b[40]; for (int i = 0; i < n; i++) { if (p.base == 'f') snprintf(b, sizeof b, "%s%.9g", i ? "," : "", (double)wf(w[i])); else snprintf(b, sizeof b, "%s%d", i ? "," : "", (int)w[i]); s += b; } return s + "}"; }
static std::string show(const GFunc &f, const Tuple &t) { std::string s; for (int i = 0; i < f.np; i++) if (isin(f.p[i])) s += words(f.p[i], t[i].data(), t[i].size()) + " "; return s; }
// deterministic perturbation number k of the float inputs by a few parts in 1e7
static Tuple perturb(const GFunc &f, const Tuple &t, int k) {
  Tuple o = t; uint32_t h = 2654435761u * (k + 1);
  for (int i = 0; i < f.np; i++) if (isin(f.p[i]) && f.p[i].base == 'f') for (auto &w : o[i]) { h = h * 1664525u + 1013904223u; float x = wf(w); uint32_t g = (h ^ h >> 15) * 0x85ebca6bu; g ^= g >> 13; float s = (g >> 9) & 1 ? 1.f : -1.f; if (k && (g >> 17) % 3 == 0) s = 0; w = fw(x + s * 6e-7f * fabsf(x) + (k & 1 && x == 0 ? s * 1e-9f : 0)); }
  return o;
}
static std::string jesc2(const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if ((unsigned char)c < 32) { o += ' '; continue; } o += c; } return o; }
