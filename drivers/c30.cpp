// C30: easing
// API: ease_*
#include "ref.hpp"
typedef double (*DF)(double);
static const double PI_ = M_PI, O = 1.70158;
static double id(double t) { return t; }
static double sin_i(double t) { return 1 - cos(t * PI_ / 2); }
template<int n> static double pw(double t) { return pow(t, n); }
static double expi(double t) { return t == 0 ? 0 : pow(2, 10 * (t - 1)); }
static double circ(double t) { return 1 - sqrt(std::max(0.0, 1 - t * t)); }
static double back(double t) { return t * t * ((O + 1) * t - O); }
static double back2(double t) { double s = O * 1.525; return t * t * ((s + 1) * t - s); }
static double elast(double t) { return sin(13 * PI_ / 2 * t) * pow(2, 10 * (t - 1)); }
static double bounce(double t) { double u = 1 - t; double b; if (u < 4 / 11.0) b = 121 * u * u / 16; else if (u < 8 / 11.0) b = 363 / 40.0 * u * u - 99 / 10.0 * u + 17 / 5.0; else if (u < 0.9) b = 4356 / 361.0 * u * u - 35442 / 1805.0 * u + 16061 / 1805.0; else b = 54 / 5.0 * u * u - 513 / 25.0 * u + 268 / 25.0; return 1 - b; }
static const FV &grid(Run &r) { static FV g; static bool th = false; if (!g.empty() && th == r.thorough) return g; g.clear(); th = r.thorough; int n = r.thorough ? 1 << 19 : 1 << 13; for (int i = 0; i <= n; i++) g.push_back((float)i / n); std::vector<double> br = {0.5, 0.25, 0.75, 0.9, 0.1, 0.45, 0.55, 0.95, 0.05}; for (int k = 1; k < 22; k++) br.push_back(k / 22.0); for (double b : br) { float x = (float)b, y = x; for (int k = 0; k < 6; k++) { g.push_back(x); g.push_back(y); x = nextafterf(x, 2); y = nextafterf(y, -1); } } for (float e = 1e-3f; e > 1e-38f; e *= 0.1f) { g.push_back(e); g.push_back(1 - e); } std::sort(g.begin(), g.end()); return g; }
// in: the "in" form; half: the curve whose halves make the in-out form
template<class G> static void family(Run &r, const char *nm, G fi, G fo, G fio, DF in, DF half, bool mono, double mag, double jump) { const char *kind[3] = {"in", "out", "inout"}; G f[3] = {fi, fo, fio};
  for (int k = 0; k < 3; k++) { if (!f[k]) continue; double run = -1e9, prev = 0; float pt = -1; for (float t : grid(r)) { r.tick(); ++r.calls; float g = f[k](t); double T = t, e, tol = 1.2e-7 * mag * 8 + 1e-6; auto val = [&](double x) { return k == 0 ? in(x) : k == 1 ? 1 - in(1 - x) : x < 0.5 ? half(2 * x) / 2 : 1 - half(2 - 2 * x) / 2; }; e = val(T);
      if (in == elast || in == expi) { double amp = k == 0 ? pow(2, 10 * (T - 1)) : k == 1 ? pow(2, -10 * T) : 0.5 * pow(2, -10 * fabs(2 * T - 1)); tol = 1e-6 + 1.2e-7 * mag * 8 * amp; }
      if (in == circ) { double u = k == 0 ? T : k == 1 ? 1 - T : T < 0.5 ? 2 * T : 2 - 2 * T, x = 1 - u * u; tol += sqrt(x + 1e-6) - sqrt(std::max(0.0, x - 1e-6)); }
      if (in == bounce || in == expi || in == elast) { double d = 1e-6; double lo = 1e9, hi = -1e9; for (double z : {std::max(0.0, T - d), T, std::min(1.0, T + d)}) { lo = std::min(lo, val(z)); hi = std::max(hi, val(z)); } if (!(in == expi && (t == 0 || t == 1))) tol += in == expi && (T < 2e-6 || T > 1 - 2e-6) ? 0 : hi - lo; }
      if (r.on()) printf("  %s %s\n", nm, kind[k]); r.show("t", t); r.near("published formula", g, R(e, 0), 0, tol);
      if (t == 0) r.near("starts at 0", g, R(0), 0, 1e-6); if (t == 1) r.near("ends at 1", g, R(1), 0, 1e-6);
      if (mono) { double mt = in == circ ? 2e-3 : 4e-6; r.ok("does not decrease", g >= run - mt); run = std::max(run, (double)g); r.ok("stays within [0,1]", g >= -4e-6 && g <= 1 + 4e-6); }
      if (pt > 0 && t < 1 && t - pt < 1e-6) r.ok("no jump", fabs(g - prev) <= (in == circ ? 3e-3 : 4e-5)); prev = g; pt = t; (void)jump; } } }
#define FAM(n, in, half, mono, mag) SITE(n) { family(r, #n, r.f.glm_ease_##n##_in, r.f.glm_ease_##n##_out, r.f.glm_ease_##n##_inout, in, half, mono, mag, 0); }
FAM(sine, sin_i, sin_i, true, 3) FAM(quad, pw<2>, pw<2>, true, 8) FAM(cubic, pw<3>, pw<3>, true, 8) FAM(quart, pw<4>, pw<4>, true, 8) FAM(quint, pw<5>, pw<5>, true, 8) FAM(exp, expi, expi, true, 20) FAM(circ, circ, circ, true, 8) FAM(back, back, back2, false, 20) FAM(elast, elast, elast, false, 60) FAM(bounce, bounce, bounce, false, 60)
SITE(linear) { if (HAVE(glm_ease_linear)) for (float t : grid(r)) { r.tick(); r.show("t", t); r.eqf("linear", F(glm_ease_linear)(t), t); } }
// bounce stays within [0,1] but is not monotone
SITE(bounce_range) { for (float t : grid(r)) { r.tick(); r.show("t", t); if (HAVE(glm_ease_bounce_in)) { float g = F(glm_ease_bounce_in)(t); r.ok("in within [0,1]", g >= -1e-5 && g <= 1 + 1e-5); } if (HAVE(glm_ease_bounce_out)) { float g = F(glm_ease_bounce_out)(t); r.ok("out within [0,1]", g >= -1e-5 && g <= 1 + 1e-5); } if (HAVE(glm_ease_bounce_inout)) { float g = F(glm_ease_bounce_inout)(t); r.ok("inout within [0,1]", g >= -1e-5 && g <= 1 + 1e-5); } } }
int main(int c, char **v) { return cglmv_main(c, v); }
