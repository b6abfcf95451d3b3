// C31: scalar utilities
// API: sign signf rad deg make_rad make_deg pow2 min max imin imax clamp clamp_zo lerp lerpc step smooth smoothstep smoothinterp smoothinterpc eq percent percentc swapf luminance
#include "cglmv.hpp"
static std::vector<int> ints() { std::vector<int> v = {INT_MIN, INT_MIN + 1, INT_MIN + 2, INT_MAX, INT_MAX - 1, 0}; for (int b = 0; b < 31; b++) for (int o = -1; o <= 1; o++) { v.push_back((1 << b) + o); v.push_back(-(1 << b) + o); } std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
SITE(sign) { if (!HAVE(glm_sign)) return; for (int x : ints()) { r.tick(); r.eqi("sign", F(glm_sign)(x), (x > 0) - (x < 0)); } if (r.thorough) for (long long x = INT_MIN; x <= INT_MAX; x++) { r.tick(); int g = F(glm_sign)((int)x); if (g != (x > 0) - (x < 0)) r.failf("sign(%lld) = %d", x, g); } }
SITE(imin_imax) { auto I = ints(); for (int a : I) for (int b : I) { r.tick(); if (HAVE(glm_imin)) r.eqi("imin", F(glm_imin)(a, b), a < b ? a : b); if (HAVE(glm_imax)) r.eqi("imax", F(glm_imax)(a, b), a > b ? a : b); } }
static const FV &X() { static FV v; if (v.empty()) { v = RICH(); for (float x : RICH()) if (std::isfinite(x) && x != 0) { v.push_back(fnext(x)); v.push_back(fprev(x)); v.push_back(-x); } for (int q = -32; q <= 32; q++) v.push_back(q / 8.f + 0.01f); for (float x : {1e-5f, 2e-5f, 180.f, 90.f, 45.f, 360.f, -180.f, 57.29578f, 30.f, 1000.f}) v.push_back(x); } return v; }
SITE(unary) { for (float x : X()) { r.tick(); r.show("x", x); if (HAVE(glm_signf)) r.eqf("signf", F(glm_signf)(x), (float)((x > 0) - (x < 0)));
    bool mod = x == 0 || (fabsf(x) > 1e-35f && fabsf(x) < 1e35f);
    if (mod) { R d = R(x) * R(M_PI / 180), g = R(x) * R(180 / M_PI);
      if (HAVE(glm_rad)) r.near("rad", F(glm_rad)(x), d, 8); if (HAVE(glm_deg)) r.near("deg", F(glm_deg)(x), g, 8);
      if (HAVE(glm_make_rad)) { float t = x; F(glm_make_rad)(&t); r.near("make_rad", t, d, 8); } if (HAVE(glm_make_deg)) { float t = x; F(glm_make_deg)(&t); r.near("make_deg", t, g, 8); } }
    if (HAVE(glm_pow2)) r.eqf("pow2", F(glm_pow2)(x), x * x);
    if (HAVE(glm_clamp_zo) && x == x) r.eqf("clamp_zo", F(glm_clamp_zo)(x), x < 0 ? 0 : x > 1 ? 1 : x);
    if (HAVE(glm_smooth) && fabsf(x) < 1e10f) r.near("smooth", F(glm_smooth)(x), R(x) * R(x) * (R(3) - R(2) * R(x)), 8); } }
SITE(pairs) { for (float x : X()) for (float y : X()) { r.tick(); r.show("x", x); r.show("y", y); bool nn = x == x && y == y;
    if (nn && HAVE(glm_min)) r.eqf("min", F(glm_min)(x, y), x < y ? x : y); if (nn && HAVE(glm_max)) r.eqf("max", F(glm_max)(x, y), x > y ? x : y);
    if (nn && HAVE(glm_step)) r.eqf("step", F(glm_step)(x, y), y < x ? 0.f : 1.f); if (HAVE(glm_eq)) r.eqi("eq", F(glm_eq)(x, y), fabsf(x - y) <= 1e-5f);
    if (HAVE(glm_swapf)) { float a = x, b = y; F(glm_swapf)(&a, &b); r.eqf("swapf a", a, y); r.eqf("swapf b", b, x); } } }
SITE(eq_boundary) { if (!HAVE(glm_eq)) return; for (float b : {0.f, 1.f, -1.f, 0.5f, 10.f, 100.f, -1000.f, -0.02f, 3e-4f, -30.f, 1e-5f, 0.3f, 7.f, -3.f}) for (int i = -60; i <= 60; i++) { float c = b + 1e-5f; c = i >= 0 ? fnext(c, i) : fprev(c, -i); for (float s : {c, 2 * b - c}) { r.tick(); r.show("a", b); r.show("b", s); r.eqi("eq", F(glm_eq)(b, s), fabsf(b - s) <= 1e-5f); r.eqi("eq sym", F(glm_eq)(s, b), fabsf(b - s) <= 1e-5f); } } }
static const FV &Y() { static FV v = {0.f, 1.f, -1.f, 2.f, -2.f, 0.5f, 3.f, -0.7f, 0.1f, -10.f, 100.f, 1e-3f, 1.f / 3, 7.f, -1.5f, 1e-6f, -1000.f, 16777216.f, 1e20f, 1.0000001f, 0.75f, 0.25f, 1.5f, -1e-3f, 0.99999994f, 30.f, -60.f, 5000.f, -300.f, 3e5f, -2e5f, 2e-4f, -7e-5f, -4.f, 1e-9f, -3e8f, 1.003f, 0.9998f, 0.502f, 0.98f, 100.02f, -0.9997f, 3e-4f}; return v; }
static double c01(double t) { return t < 0 ? 0 : t > 1 ? 1 : t; }
SITE(triples) { for (float a : Y()) for (float b : Y()) for (float t : Y()) { r.tick(); r.show("a", a); r.show("b", b); r.show("t", t); R A(a), B(b), T(t), TC(c01(t)); auto sm = [](R t) { return t * t * (R(3) - R(2) * t); };
    if (HAVE(glm_clamp) && b <= t) r.eqf("clamp(a,b,t)", F(glm_clamp)(a, b, t), a < b ? b : a > t ? t : a);
    if (HAVE(glm_lerp)) r.near("lerp", F(glm_lerp)(a, b, t), A + T * (B - A), 8); if (HAVE(glm_lerpc)) r.near("lerpc", F(glm_lerpc)(a, b, t), A + TC * (B - A), 8);
    if (HAVE(glm_smoothinterp) && fabsf(t) < 1e8f) r.near("smoothinterp", F(glm_smoothinterp)(a, b, t), A + sm(T) * (B - A), 12); if (HAVE(glm_smoothinterpc)) r.near("smoothinterpc", F(glm_smoothinterpc)(a, b, t), A + sm(TC) * (B - A), 12);
    if (a != b) { R q = (T - A) / (B - A); R qc(c01(q.v), q.v < 0 || q.v > 1 ? std::max(1.0, q.m) : q.m);
      if (HAVE(glm_percent)) r.near("percent", F(glm_percent)(a, b, t), q, 8); if (HAVE(glm_percentc)) r.near("percentc", F(glm_percentc)(a, b, t), qc, 8);
      if (HAVE(glm_smoothstep)) r.near("smoothstep", F(glm_smoothstep)(a, b, t), R(sm(R(qc.v)).v, std::max(sm(R(qc.v)).m, 8 * qc.m)), 8);
    } else { if (HAVE(glm_percent)) r.eqf("percent of empty range", F(glm_percent)(a, b, t), 1.f); if (HAVE(glm_percentc)) r.eqf("percentc of empty range", F(glm_percentc)(a, b, t), 1.f); } } }
SITE(luminance) { if (!HAVE(glm_luminance)) return; for (auto &v : product<3>({0.f, 1.f, 0.5f, 0.25f, 0.1f, 2.f, -1.f, 1e-3f, 255.f, -0.03f, 30.f, 5000.f, 2e-4f, -40.f})) { r.tick(); A32 float a[3]; memcpy(a, v.a, 12); r.show("rgb", a, 3); r.near("luminance", F(glm_luminance)(a), R(a[0]) * R(0.212671) + R(a[1]) * R(0.715160) + R(a[2]) * R(0.072169), 8); } }
int main(int c, char **v) { return cglmv_main(c, v); }
