// Exhaustive enumeration harness: loads one build of the implementation per (configuration, API surface),
// runs every registered site on every build (one forked child each) and reports counts and failures.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstdarg>
#include <cstring>
#include <cmath>
#include <cfloat>
#include <climits>
#include <string>
#include <vector>
#include <functional>
#include <unordered_set>
#include <algorithm>
#include <dlfcn.h>
#include <unistd.h>
#include <signal.h>
#include <poll.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/mman.h>
#include "api.hpp"

// ---------------------------------------------------------------- reference numbers
// v: value in double precision; m: sum of the magnitudes of the terms it was formed from.  A float
// evaluation in any association, with or without fused multiply-add, stays within K*2^-24*m of v.
struct R {
  double v, m;
  R(double x = 0) : v(x), m(fabs(x)) {}
  R(double x, double y) : v(x), m(y) {}
};
static inline R operator+(R a, R b) { return R(a.v + b.v, a.m + b.m); }
static inline R operator-(R a, R b) { return R(a.v - b.v, a.m + b.m); }
static inline R operator-(R a) { return R(-a.v, a.m); }
static inline R operator*(R a, R b) { return R(a.v * b.v, a.m * b.m); }
static inline R operator/(R a, R b) { double q = b.m / (b.v * b.v); return R(a.v / b.v, a.m * q); }
static inline R &operator+=(R &a, R b) { a = a + b; return a; }
static inline R &operator-=(R &a, R b) { a = a - b; return a; }
static inline R &operator*=(R &a, R b) { a = a * b; return a; }
static inline R Rsqrt(R a) { double s = sqrt(a.v > 0 ? a.v : 0); double m1 = s > 0 ? a.m / s : INFINITY, m2 = 4096 * sqrt(a.m); return R(s, std::max(s, std::min(m1, m2))); }
static inline R Rabs(R a) { return R(fabs(a.v), a.m); }
static inline R Rsin(R a) { return R(sin(a.v), std::max(fabs(sin(a.v)), a.m)); }
static inline R Rcos(R a) { return R(cos(a.v), 1 + a.m); }
static inline R Rtan(R a) { double t = tan(a.v); return R(t, std::max(fabs(t), (1 + t * t) * a.m)); }
static inline R Rmin(R a, R b) { return a.v < b.v ? a : b; }
static inline R Rmax(R a, R b) { return a.v > b.v ? a : b; }

struct Run {
  Api f; void *gen; std::string cfg, surf; bool thorough = false; int lvl = 0;
  long long states = 0, calls = 0, checks = 0, skipped = 0, nfail = 0;
  long long target = -1;                 // replay: print the details of this case
  struct Fail { long long c; std::string msg; }; std::vector<Fail> fails;
  std::vector<std::string> samples;
  unsigned char bitmap[8192] = {0};
  std::string site;
  bool lh = false, zo = false, emu = false;
  bool on() const { return target == states; }
  // start of one enumerated case
  void tick() { ++states; }
  void outcome(const void *p, size_t n) { uint32_t h = 2166136261u; for (size_t i = 0; i < n; i++) { h ^= ((const unsigned char *)p)[i]; h *= 16777619u; } h ^= h >> 16; bitmap[(h & 65535) >> 3] |= 1 << (h & 7); }
  int outcomes() const { int n = 0; for (unsigned char b : bitmap) n += __builtin_popcount(b); return n; }
  void failf(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
    char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    nfail++;
    if (fails.size() < 3 && (fails.empty() || fails.back().c != states)) fails.push_back({states, b});
    if (on()) printf("  FAILED: %s\n", b);
  }
  void show(const char *n, const float *p, int k) {
    if (on()) { printf("  %s = {", n); for (int i = 0; i < k; i++) printf("%s%.9g", i ? ", " : "", (double)p[i]); printf("}\n"); }
    else if (samples.size() < 2 && (states == 1 || states == 1000)) note(n, p, k);
  }
  void note(const char *n, const float *p, int k) {
    char b[64]; std::string s = std::string(n) + "={"; for (int i = 0; i < k; i++) { snprintf(b, sizeof b, "%s%.9g", i ? "," : "", (double)p[i]); s += b; } samples.push_back(s + "}");
  }
  void show(const char *n, double x) { if (on()) printf("  %s = %.9g\n", n, x); }
  void showi(const char *n, const int *p, int k) { if (on()) { printf("  %s = {", n); for (int i = 0; i < k; i++) printf("%s%d", i ? ", " : "", p[i]); printf("}\n"); } }
  bool ok(const char *what, bool c) { ++checks; outcome(&c, 1); if (on()) printf("  %s: %s\n", what, c ? "holds" : "BROKEN"); if (!c) failf("%s", what); return c; }
  bool near(const char *what, float got, R e, double K = 32, double abst = 1e-36) {
    ++checks;
    if (!(fabs(e.m) < 1e37) || !std::isfinite(e.v)) { skipped++; return true; }
    outcome(&got, 4);
    double tol = K * 5.9604644775390625e-08 * e.m + abst, d = fabs((double)got - e.v);
    bool c = d <= tol;
    if (on()) printf("  %s: got %.9g expected %.9g (tolerance %.3g)%s\n", what, (double)got, e.v, tol, c ? "" : "  <-- differs");
    if (!c) failf("%s: got %.9g expected %.9g (tolerance %.3g)", what, (double)got, e.v, tol);
    return c;
  }
  bool nearv(const char *what, const float *got, const R *e, int n, double K = 32, double abst = 1e-36) {
    bool c = true; char b[96];
    for (int i = 0; i < n; i++) { snprintf(b, sizeof b, "%s[%d]", what, i); c = near(b, got[i], e[i], K, abst) && c; }
    return c;
  }
  // as near(), but a NaN or infinite expectation must be matched in kind
  bool num(const char *what, float got, R e, double K = 8) {
    if (std::isfinite(e.v)) return near(what, got, e, K);
    return eqf(what, got, (float)e.v);
  }
  // equal as numbers: sign of zero and NaN payload ignored
  bool eqf(const char *what, float got, float e) {
    ++checks; outcome(&got, 4);
    bool c = got == e || (got != got && e != e);
    if (on()) printf("  %s: got %.9g expected %.9g%s\n", what, (double)got, (double)e, c ? "" : "  <-- differs");
    if (!c) failf("%s: got %.9g expected %.9g", what, (double)got, (double)e);
    return c;
  }
  // an unchanged value: also the sign of a zero
  bool same(const char *what, float got, float e) { if (got == 0 && e == 0 && std::signbit(got) != std::signbit(e)) { ++checks; failf("%s: got %g expected %g (sign of zero)", what, (double)got, (double)e); return false; } return eqf(what, got, e); }
  bool samev(const char *what, const float *got, const float *e, int n) {
    bool c = true; char b[96];
    for (int i = 0; i < n; i++) { snprintf(b, sizeof b, "%s[%d]", what, i); c = same(b, got[i], e[i]) && c; }
    return c;
  }
  bool eqv(const char *what, const float *got, const float *e, int n) {
    bool c = true; char b[96];
    for (int i = 0; i < n; i++) { snprintf(b, sizeof b, "%s[%d]", what, i); c = eqf(b, got[i], e[i]) && c; }
    return c;
  }
  bool eqi(const char *what, int got, int e) {
    ++checks; outcome(&got, 4);
    bool c = got == e;
    if (on()) printf("  %s: got %d expected %d%s\n", what, got, e, c ? "" : "  <-- differs");
    if (!c) failf("%s: got %d expected %d", what, got, e);
    return c;
  }
  bool eqiv(const char *what, const int *got, const int *e, int n) {
    bool c = true; char b[96];
    for (int i = 0; i < n; i++) { snprintf(b, sizeof b, "%s[%d]", what, i); c = eqi(b, got[i], e[i]) && c; }
    return c;
  }
};
#define F(fn) (++r.calls, r.f.fn)
#define HAVE(fn) (r.f.fn != 0)
typedef void (*SiteFn)(Run &);
struct Site { const char *name; SiteFn fn; };
static std::vector<Site> &sites() { static std::vector<Site> s; return s; }
struct SiteReg { SiteReg(const char *n, SiteFn f) { sites().push_back({n, f}); } };
#define SITE(n) static void site_##n(Run &r); static SiteReg reg_##n(#n, site_##n); static void site_##n(Run &r)
#define A32 alignas(32)

static std::string jesc(const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if ((unsigned char)c < 32) { o += ' '; continue; } o += c; } return o; }
static std::string jsite(const Run &r, const char *status) {
  std::string o = "{\"cfg\":\"" + r.cfg + "\",\"surface\":\"" + r.surf + "\",\"site\":\"" + r.site + "\",\"status\":\"" + status + "\"";
  char b[256]; snprintf(b, sizeof b, ",\"states\":%lld,\"calls\":%lld,\"checks\":%lld,\"skipped\":%lld,\"nfail\":%lld,\"outcomes\":%d", r.states, r.calls, r.checks, r.skipped, r.nfail, r.outcomes()); o += b;
  o += ",\"fails\":["; for (size_t i = 0; i < r.fails.size(); i++) { snprintf(b, sizeof b, "%s{\"case\":%lld,\"msg\":\"", i ? "," : "", r.fails[i].c); o += b; o += jesc(r.fails[i].msg) + "\"}"; }
  o += "],\"samples\":["; for (size_t i = 0; i < r.samples.size(); i++) o += (i ? ",\"" : "\"") + jesc(r.samples[i]) + "\"";
  return o + "]}\n";
}
struct Lib { std::string path, cfg, surf; Api api; void *gen; };
static Run *cur_run;
static long long *shared_case;
// usage: driver [--site S] [--case N] [--thorough] [-j N] [--cpu SECONDS] cfg:surface:path.so ...
int cglmv_main(int argc, char **argv) {
  std::vector<Lib> libs; std::string only; long long target = -1; bool thorough = false; int jobs = 8; int cpu = 150; auto sel = [&](const std::string &n) { return ("," + only + ",").find("," + n + ",") != std::string::npos; };
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--site") only = argv[++i]; else if (a == "--case") target = atoll(argv[++i]); else if (a == "--thorough") thorough = true;
    else if (a == "-j") jobs = atoi(argv[++i]); else if (a == "--cpu") cpu = atoi(argv[++i]);
    else if (a == "--list") { for (auto &s : sites()) puts(s.name); return 0; }
    else {
      size_t p = a.find(':'), q = a.find(':', p + 1); Lib l; l.cfg = a.substr(0, p); l.surf = a.substr(p + 1, q - p - 1); l.path = a.substr(q + 1);
      void *h = dlopen(l.path.c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
      void *t = dlsym(h, "cglm_tab"); l.gen = dlsym(h, "cglm_gen"); if (!t || !l.gen) { fprintf(stderr, "no table\n"); return 2; }
      memcpy(&l.api, t, sizeof(Api)); libs.push_back(l);
    }
  }
  setvbuf(stdout, 0, _IOFBF, 1 << 16);
  auto mk = [&](const Lib &l) { Run *r = new Run; r->f = l.api; r->gen = l.gen; r->cfg = l.cfg; r->surf = l.surf; r->thorough = thorough; r->target = target;
    r->lh = l.cfg.find("lh") == 0; r->zo = l.cfg.find("_zo") != std::string::npos; r->emu = l.cfg.find("neon") == 0 || l.cfg == "wasm"; return r; };
  if (target >= 0) {   // replay in process
    for (auto &l : libs) for (auto &s : sites()) if (sel(s.name)) {
      Run *r = mk(l); r->site = s.name; printf("replaying %s case %lld on %s/%s\n", s.name, target, l.cfg.c_str(), l.surf.c_str()); fflush(stdout);
      setvbuf(stdout, 0, _IOLBF, 0); s.fn(*r); printf("%lld failing comparisons in the whole site\n", r->nfail); }
    return 0;
  }
  struct Task { size_t lib, site; }; std::vector<Task> tasks;
  for (size_t s = 0; s < sites().size(); s++) if (only.empty() || sel(sites()[s].name)) for (size_t l = 0; l < libs.size(); l++) tasks.push_back({l, s});
  struct Child { pid_t pid; int fd; Task t; std::string out; long long *cs; }; std::vector<Child> ch; size_t next = 0;
  while (next < tasks.size() || !ch.empty()) {
    while ((int)ch.size() < jobs && next < tasks.size()) {
      Task t = tasks[next++]; int p[2]; if (pipe(p)) return 2;
      long long *cs = (long long *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      fflush(stdout); pid_t pid = fork();
      if (pid == 0) {
        close(p[0]); struct rlimit rl = {(rlim_t)cpu, (rlim_t)cpu + 5}; setrlimit(RLIMIT_CPU, &rl); rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
        Run *r = mk(libs[t.lib]); r->site = sites()[t.site].name; cur_run = r; shared_case = cs;
        auto h = [](int) { *shared_case = cur_run->states; _exit(97); };
        for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) signal(s, h);
        signal(SIGXCPU, [](int) { *shared_case = cur_run->states; _exit(98); });
        if (freopen("/dev/null", "w", stdout)) {}
        sites()[t.site].fn(*r);
        std::string o = jsite(*r, r->nfail ? "fail" : "ok"); size_t w = 0; while (w < o.size()) { ssize_t k = write(p[1], o.data() + w, o.size() - w); if (k <= 0) break; w += k; }
        _exit(0);
      }
      close(p[1]); ch.push_back({pid, p[0], t, "", cs});
    }
    std::vector<pollfd> pf; for (auto &c : ch) pf.push_back({c.fd, POLLIN, 0});
    poll(pf.data(), pf.size(), 1000);
    for (size_t i = 0; i < pf.size(); i++) if (pf[i].revents) {
      char b[65536]; ssize_t k = read(ch[i].fd, b, sizeof b);
      if (k > 0) { ch[i].out.append(b, k); continue; }
      int st; waitpid(ch[i].pid, &st, 0); close(ch[i].fd);
      bool good = WIFEXITED(st) && WEXITSTATUS(st) == 0 && !ch[i].out.empty() && ch[i].out.back() == '\n';
      if (good) fputs(ch[i].out.c_str(), stdout);
      else {
        Run *r = mk(libs[ch[i].t.lib]); r->site = sites()[ch[i].t.site].name; r->states = *ch[i].cs; r->nfail = 1;
        bool hang = WIFEXITED(st) && WEXITSTATUS(st) == 98, crash = WIFEXITED(st) && WEXITSTATUS(st) == 97;
        r->fails.push_back({r->states, hang ? "does not terminate (CPU limit reached)" : "crashes (fatal signal)"});
        fputs(jsite(*r, hang ? "hang" : crash ? "crash" : "died").c_str(), stdout);
      }
      fflush(stdout);
      munmap(ch[i].cs, 4096); ch[i].pid = -1;
    }
    ch.erase(std::remove_if(ch.begin(), ch.end(), [](const Child &c) { return c.pid == -1; }), ch.end());
  }
  fflush(stdout);
  return 0;
}

// ---------------------------------------------------------------- alphabets
typedef std::vector<float> FV;
static inline float fnext(float x, int k = 1) { while (k-- > 0) x = nextafterf(x, INFINITY); return x; }
static inline float fprev(float x, int k = 1) { while (k-- > 0) x = nextafterf(x, -INFINITY); return x; }
static const FV &RICH() {   // scalars for component-wise operations
  static FV v = {0.f, 1.f, -1.f, 2.f, -2.f, 0.5f, -0.5f, 3.f, -3.f, 1.5f, -1.5f, 2.5f, -2.5f, 0.1f, -0.7f, 1.f / 3, -1.f / 3, 7.f, -10.f, 100.f, 0.25f, -0.25f,
    1e-3f, -1e-3f, 1e-6f, FLT_EPSILON, -FLT_EPSILON, 0.5f * FLT_EPSILON, 1e-10f, -1e-20f, FLT_MIN, 1e-40f, -1e-40f, 0.99999994f, 1.0000001f, -0.99999994f,
    3.14159265f, 1e5f, -1e10f, 42.f, -30.f, -300.f, 6000.f, -2e4f, -5e5f, -1e-5f, 0.03f, 16777216.f, 8388609.f, -2147483648.f, 1e20f, FLT_MAX, -FLT_MAX, INFINITY, -INFINITY, NAN, -0.f};
  return v;
}
static const FV &MID() {    // moderate scalars for algebraic operations
  static FV v = {0.f, 1.f, -1.f, 2.f, -2.f, 0.5f, -0.5f, 3.f, -0.7f, 0.1f, -10.f, 100.f, 1e-3f, -1e-3f, 1.f / 3, 7.f, -1.5f, 0.25f, 1e-5f, -1000.f, 30.f, -42.f, 300.f, 6e3f, -2e4f, 4e5f, -5e-6f, -0.04f, 3e-9f};
  return v;
}
static const FV &SMALLA() { static FV v = {0.f, 1.f, -1.f, 0.5f, -2.f, 3.f, -0.7f, 0.1f}; return v; }
static FV angles(int lim = 24, bool tiny = true) {   // multiples of pi/12 and boundary cases
  FV v; for (int k = -lim; k <= lim; k++) v.push_back((float)(k * M_PI / 12)); 
  for (float x : {0.1f, -0.3f, 1.f, -2.f, 2.9f, 4.f, -5.5f, 0.01f}) v.push_back(x);
  for (double b : {M_PI / 2, M_PI, -M_PI / 2, -M_PI, 2 * M_PI, 0.0, M_PI / 4, 1.0}) for (double d : {-0.02, 2e-3, -2e-4}) { v.push_back((float)(b + d)); if (b == M_PI || b == M_PI / 2) v.push_back((float)(b - d)); }
  if (tiny) for (float x : {1e-3f, -1e-3f, 1e-6f, 1e-20f, 3.1415925f, 3.1415930f, 12.5f, -100.f, 63.f, 5000.f, -0.02f, 3e-4f, 7.f, 9.f, -20.f, 40.f, 400.f, -900.f, -2.5e4f, -1e-5f, -2e-8f, 2e5f}) v.push_back(x);
  return v;
}
template<int N> struct VF { float a[N]; };
// every vector over the alphabet
template<int N> static std::vector<VF<N>> product(const FV &s) {
  std::vector<VF<N>> o; long long n = 1; for (int i = 0; i < N; i++) n *= s.size();
  for (long long k = 0; k < n; k++) { VF<N> v; long long q = k; for (int i = 0; i < N; i++) { v.a[i] = s[q % s.size()]; q /= s.size(); } o.push_back(v); }
  return o;
}
// vectors of other magnitudes: uniform, mixed and lopsided
template<int N> static std::vector<VF<N>> sized() { std::vector<VF<N>> o; static const float P[7][4] = {{1, 1, 1, 1}, {1, -2, 0.7f, -0.4f}, {-0.1f, 1, -3, 2}, {1, 0, 0, 0}, {0, 0.3f, -1, 0}, {-1, -2, -4, -1.5f}, {0.6f, 0.2f, 0.9f, 1.3f}};
  for (float s : {0.3f, 0.02f, -3e-3f, 4e-4f, 15.f, -80.f, 700.f, -4e4f, 6.f, 5e3f, 3e5f, -4e6f, -2e-5f, 7e-9f}) { for (auto &p : P) { VF<N> v; for (int k = 0; k < N; k++) v.a[k] = p[k] * s; o.push_back(v); } for (int i = 0; i < N; i++) { VF<N> v; for (int k = 0; k < N; k++) v.a[k] = k == i ? s : 0.5f * (k + 1) * (k & 1 ? -1 : 1); o.push_back(v); } } return o; }
template<int N> static std::vector<VF<N>> plus(std::vector<VF<N>> v, bool on = true) { if (on) for (auto &x : sized<N>()) v.push_back(x); return v; }
// axes whose length is close to, but not, one
static std::vector<VF<3>> nearunit() { std::vector<VF<3>> o; const double D[5][3] = {{0, 0, 1}, {1, 0, 0}, {0, -1, 0}, {0.6, 0, 0.8}, {1 / sqrt(3.0), -1 / sqrt(3.0), 1 / sqrt(3.0)}}; for (auto &d : D) for (double s : {0.5, 0.96, 0.99, 0.998, 0.9998, 1.0002, 1.002, 1.01, 1.04, 2.0}) o.push_back({{(float)(d[0] * s), (float)(d[1] * s), (float)(d[2] * s)}}); return o; }
// how far a value is from the special one it is close to
static const double NEARD[6] = {0.04, -0.03, 4e-3, -2e-3, 3e-4, -2e-4};
