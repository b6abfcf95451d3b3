// C21: reading back and editing projections
// API: persp_* perspective_resize* perspective_[lr]h_* frustum_[lr]h_*
#include "ref.hpp"
#define FILL(d) for (float &x_ : d) x_ = 12345.f
// one clip space: its constructor and its readers; the configured functions are checked against the configured constructor
struct V { const char *n; bool lh, zo; void (*frustum)(float, float, float, float, float, float, float *); void (*persp)(float, float, float, float, float *); void (*resize)(float, float *); void (*move)(float *, float); void (*dec)(float *, float *, float *, float *, float *, float *, float *); void (*decv)(float *, float *); void (*dx)(float *, float *, float *); void (*dy)(float *, float *, float *); void (*dz)(float *, float *, float *); void (*df)(float *, float *); void (*dn)(float *, float *); void (*sizes)(float *, float, float *); float (*fovy)(float *); float (*aspect)(float *); };
#define ROW(s, LH, ZO) {#s, LH, ZO, r.f.glm_frustum_##s, r.f.glm_perspective_##s, r.f.glm_perspective_resize_##s, r.f.glm_persp_move_far_##s, r.f.glm_persp_decomp_##s, r.f.glm_persp_decompv_##s, r.f.glm_persp_decomp_x_##s, r.f.glm_persp_decomp_y_##s, r.f.glm_persp_decomp_z_##s, r.f.glm_persp_decomp_far_##s, r.f.glm_persp_decomp_near_##s, r.f.glm_persp_sizes_##s, r.f.glm_persp_fovy_##s, r.f.glm_persp_aspect_##s}
static std::vector<V> vars(Run &r) { std::vector<V> o = {ROW(lh_no, 1, 0), ROW(lh_zo, 1, 1), ROW(rh_no, 0, 0), ROW(rh_zo, 0, 1)}; o.push_back({"configured", r.lh, r.zo, 0, 0, r.f.glm_perspective_resize, r.f.glm_persp_move_far, r.f.glm_persp_decomp, r.f.glm_persp_decompv, r.f.glm_persp_decomp_x, r.f.glm_persp_decomp_y, r.f.glm_persp_decomp_z, r.f.glm_persp_decomp_far, r.f.glm_persp_decomp_near, r.f.glm_persp_sizes, r.f.glm_persp_fovy, r.f.glm_persp_aspect}); return o; }
// model of the matrix, as floats (independent of the implementation's constructors)
static void proj(bool lh, bool zo, double l, double rr, double b, double t, double n, double f, float *m) { memset(m, 0, 64); double s = lh ? 1 : -1; m[0] = 2 * n / (rr - l); m[5] = 2 * n / (t - b); m[8] = -s * (rr + l) / (rr - l); m[9] = -s * (t + b) / (t - b); m[11] = s; if (zo) { m[10] = s * f / (f - n); m[14] = -f * n / (f - n); } else { m[10] = s * (f + n) / (f - n); m[14] = -2 * f * n / (f - n); } }
struct Lim { R n, f; };
static Lim nf(bool lh, bool zo, const float *m) { R s(lh ? 1 : -1), a = s * R(m[10]), c(m[14]); return {zo ? -(c / a) : -(c / (a + R(1))), -(c / (a - R(1)))}; }
SITE(decompose) { for (auto &v : vars(r)) for (auto &x : std::vector<VF<2>>{{{-1, 1}}, {{-2, 3}}, {{0, 5}}, {{1, 4}}, {{-7, -2}}, {{-0.01f, 0.03f}}, {{2, -1}}, {{-3, 0}}, {{60, 95}}, {{-2e-3f, 1e-3f}}, {{-900, 4000}}, {{-1, 1.003f}}, {{-0.9997f, 1}}}) for (auto &y : std::vector<VF<2>>{{{-1, 1}}, {{-3, 2}}, {{0, 5}}, {{1, 4}}, {{-0.02f, 0.01f}}, {{-6, 0}}, {{-80, 30}}, {{-3e-3f, -2e-3f}}, {{3, -2}}, {{-1, 1.002f}}, {{-0.9982f, 1}}}) for (float n : {0.01f, 0.1f, 1.f, 3.f, 10.f, 200.f, 2e-3f, 60.f, 0.5f}) for (float f : {0.05f, 5.f, 50.f, 100.f, 1000.f, 1.f, 0.4f, 6e-3f, 9000.f}) { if (n == f) continue; r.tick(); A32 float m[16]; proj(v.lh, v.zo, x.a[0], x.a[1], y.a[0], y.a[1], n, f, m); if (r.on()) printf("  %s\n", v.n); r.show("proj", m, 16); r.show("left,right", x.a, 2); r.show("bottom,top", y.a, 2); r.show("near", n); r.show("far", f);
    Lim L = nf(v.lh, v.zo, m); R s(v.lh ? 1 : -1); R l = L.n * (-R(1) + -s * R(m[8])) / R(m[0]), rt = L.n * (R(1) + -s * R(m[8])) / R(m[0]), bo = L.n * (-R(1) + -s * R(m[9])) / R(m[5]), to = L.n * (R(1) + -s * R(m[9])) / R(m[5]); const double K = 24;
    // what is read back is what was put in (to the precision the matrix can hold)
    auto in = [&](const char *w, float g, R e, double want) { r.near(w, g, e, K); double tol = 1e-6 * (fabs(want) + fabs(e.v)) + 64 * 6e-8 * e.m; r.ok(w, fabs(g - want) <= tol); };
    float o[6]; if (v.dec) { FILL(o); ++r.calls; v.dec(m, o, o + 1, o + 2, o + 3, o + 4, o + 5); in("near", o[0], L.n, n); in("far", o[1], L.f, f); in("top", o[2], to, y.a[1]); in("bottom", o[3], bo, y.a[0]); in("left", o[4], l, x.a[0]); in("right", o[5], rt, x.a[1]); }
    if (v.decv) { FILL(o); ++r.calls; v.decv(m, o); in("v near", o[0], L.n, n); in("v far", o[1], L.f, f); in("v top", o[2], to, y.a[1]); in("v bottom", o[3], bo, y.a[0]); in("v left", o[4], l, x.a[0]); in("v right", o[5], rt, x.a[1]); }
    if (v.dx) { FILL(o); ++r.calls; v.dx(m, o, o + 1); in("x left", o[0], l, x.a[0]); in("x right", o[1], rt, x.a[1]); } if (v.dy) { FILL(o); ++r.calls; v.dy(m, o, o + 1); in("y top", o[0], to, y.a[1]); in("y bottom", o[1], bo, y.a[0]); } if (v.dz) { FILL(o); ++r.calls; v.dz(m, o, o + 1); in("z near", o[0], L.n, n); in("z far", o[1], L.f, f); }
    if (v.df) { FILL(o); ++r.calls; v.df(m, o); in("far only", o[0], L.f, f); } if (v.dn) { FILL(o); ++r.calls; v.dn(m, o); in("near only", o[0], L.n, n); }
    // field of view, aspect, plane sizes and edits do not depend on the centre of the view
    double oc = 1 + fabs(m[8]) + fabs(m[9]); auto mg = [&](R e) { return R(e.v, e.m * oc); }; R as = R(m[5]) / R(m[0]); if (v.aspect) { ++r.calls; r.near("off-center aspect", v.aspect(m), mg(as), 16); } double q = 1.0 / m[5]; if (v.fovy && q > 0) { ++r.calls; r.near("off-center fovy", v.fovy(m), R(2 * atan(q), std::max(1.0, fabs(q)) * oc), 8); }
    for (double fov : {0.7, 2 * atan(q)}) if (v.sizes && fov > 1e-3 && fov < 3) { float fv = (float)fov; FILL(o); ++r.calls; v.sizes(m, fv, o); R tt(2 * tan((double)fv / 2), 2 * tan(fov / 2) + fov / (1 + cos(fov)) * 2); r.near("off-center near width", o[0], mg(as * tt * L.n), 24); r.near("off-center near height", o[1], mg(tt * L.n), 24); r.near("off-center far width", o[2], mg(as * tt * L.f), 24); r.near("off-center far height", o[3], mg(tt * L.f), 24); }
    A32 float d[16]; if (v.resize) for (float p : {0.5f, 1.7777778f}) { memcpy(d, m, 64); ++r.calls; v.resize(p, d); for (int k = 0; k < 16; k++) if (k) r.eqf("off-center: only the horizontal scale changes", d[k], m[k]); r.near("off-center horizontal scale", d[0], R(m[5]) / R(p), 8); }
    if (v.move && f > n) for (float dl : {0.5f, 2.f}) { memcpy(d, m, 64); ++r.calls; v.move(d, f * dl); R F2 = L.f + R(f * dl), fn = R(1) / (L.n - F2); for (int k = 0; k < 16; k++) if (k != 10 && k != 14) r.eqf("off-center: only the depth mapping changes", d[k], m[k]); R e22 = v.zo ? F2 * fn : (F2 + L.n) * fn, e32 = v.zo ? L.n * F2 * fn : R(2) * L.n * F2 * fn; r.near("off-center depth scale", d[10], -(s * e22), 24); r.near("off-center depth offset", d[14], e32, 24); } } }
SITE(edit) { for (auto &v : vars(r)) for (float fov : {0.3f, (float)M_PI / 4, 1.2f, (float)M_PI / 2, 2.f, 2.8f, 0.03f, 3.05f, 6e-3f, 4e-4f}) for (float a : {1.f, 1.7777778f, 0.5f, 3.f, 0.08f, 12.f, 70.f, 5e-3f, 3000.f, 3e-4f, 1.003f, 0.9998f}) for (float n : {0.01f, 0.1f, 1.f, 10.f, 2e-3f, 0.4f, 70.f, 3e3f, 2e-4f}) for (float f : {50.f, 100.f, 1000.f, 11.f, 2.f, 7000.f, 3e5f, 0.05f}) for (float p : {0.5f, 1.f, 2.f, 20.f, -0.25f, 0.05f, 400.f, 1e-3f, -4.f, 0.f, 3e-5f, 5000.f, -150.f, 2e5f, -0.004f, 1.004f, 0.9997f, 2e-4f}) if (n < f) { r.tick(); A32 float m[16], d[16], o[4]; double t = tan(fov / 2) * n; proj(v.lh, v.zo, -t * a, t * a, -t, t, n, f, m); if (r.on()) printf("  %s\n", v.n); r.show("proj", m, 16); r.show("fovy", fov); r.show("aspect", a); r.show("near", n); r.show("far", f); r.show("parameter", p);
    if (v.fovy) { ++r.calls; float g = v.fovy(m); double q = 1.0 / m[5]; r.near("fovy", g, R(2 * atan(q), std::max(1.0, fabs(q))), 8); r.near("fovy is what was put in", g, R(fov, 4), 32); } if (v.aspect) { ++r.calls; r.near("aspect", v.aspect(m), R(a), 16); }
    Lim L = nf(v.lh, v.zo, m); if (v.sizes) { FILL(o); ++r.calls; v.sizes(m, fov, o); R tt(2 * tan(fov / 2), 2 * tan(fov / 2) + fov / (1 + cos(fov)) * 2); R as = R(m[5]) / R(m[0]); r.near("near width", o[0], as * tt * L.n, 24); r.near("near height", o[1], tt * L.n, 24); r.near("far width", o[2], as * tt * L.f, 24); r.near("far height", o[3], tt * L.f, 24); }
    if (v.resize && p > 0) { memcpy(d, m, 64); ++r.calls; v.resize(p, d); for (int k = 0; k < 16; k++) if (k) r.eqf("only the horizontal scale changes", d[k], m[k]); r.near("horizontal scale", d[0], R(m[5]) / R(p), 8); }
    if (v.move) { double dl = p * 10; if (f + dl <= 1.5 * n) continue; memcpy(d, m, 64); ++r.calls; v.move(d, (float)dl); R F2 = L.f + R(dl), fn = R(1) / (L.n - F2), s(v.lh ? 1 : -1); for (int k = 0; k < 16; k++) if (k != 10 && k != 14) r.eqf("only the depth mapping changes", d[k], m[k]); R e22 = v.zo ? F2 * fn : (F2 + L.n) * fn, e32 = v.zo ? L.n * F2 * fn : R(2) * L.n * F2 * fn; r.near("depth scale", d[10], -(s * e22), 24); r.near("depth offset", d[14], e32, 24); } } 
  // a zero matrix is left alone by resize
  for (auto &v : vars(r)) if (v.resize) { r.tick(); A32 float z[16] = {0}; z[5] = 2; ++r.calls; v.resize(1.5f, z); for (int k = 0; k < 16; k++) r.eqf("zero projection unchanged", z[k], k == 5 ? 2 : 0); } }
// histories: every sequence of resize / move_far edits keeps the other parameters
SITE(edit_sequences) { const double I[7][6] = {{1.5, 0.5, 60, 1.1, 0, 0}, {0.4, 0.02, 3, 0.2, 0, 0}, {1, 5, 40, 2.6, 0, 0}, {7, 1, 2000, 0.8, 0, 0}, {1.2, 0.1, 90, 1.4, 0.3, -0.6}, {0.9, 2, 9, 0.5, -2, 1.5}, {30, 0.3, 8, 1.9, 0.05, 4}}; int D = r.thorough ? 7 : 5;
  for (auto &v : vars(r)) { if (!v.resize || !v.move || !v.dec) continue; for (auto &I0 : I) for (int seq = 0; seq < 1 << 2 * D; seq++) { r.tick(); A32 float m[16]; double asp = I0[0], n = I0[1], f = I0[2], fov = I0[3], t = tan(fov / 2) * n, cx = I0[4], cy = I0[5]; // off-centre by cx, cy half heights
    proj(v.lh, v.zo, t * (cx - 1) * asp, t * (cx + 1) * asp, t * (cy - 1), t * (cy + 1), n, f, m); if (r.on()) printf("  %s sequence %d\n", v.n, seq); int z = seq; double worst = f / n;
    for (int k = 0; k < D; k++, z >>= 2) { ++r.calls; switch (z & 3) { case 0: v.resize(0.8f, m); asp = 0.8f; break; case 1: v.resize(2.2f, m); asp = 2.2f; break; case 2: { float d = (float)(I0[2] * 0.4); v.move(m, d); f += d; break; } case 3: { float d = (float)(-I0[2] * 0.12); v.move(m, d); f += d; break; } } worst = std::max(worst, f / n); }
    r.show("proj", m, 16); float o[6]; v.dec(m, o, o + 1, o + 2, o + 3, o + 4, o + 5); double K = 60 + 8 * D, Q = 1 + fabs(cx), U = 1 + fabs(cy);
    r.near("near", o[0], R(n), K); r.near("far", o[1], R(f), K * (1 + worst)); r.near("top", o[2], R(t * (cy + 1), t * U), K); r.near("bottom", o[3], R(t * (cy - 1), t * U), K); r.near("left", o[4], R(t * (cx - 1) * asp, t * asp * Q), K); r.near("right", o[5], R(t * (cx + 1) * asp, t * asp * Q), K); } } }
int main(int c, char **v) { return cglmv_main(c, v); }
