// Generic explorations over the whole API.  usage: generic MODE [-j N] [--thorough] [--only FUNCTION] cfg:surface:lib.so ...
//  eq    : every library against the first one, over argument tuples and over operation chains (C01, C03)
//  alias : every partition of same-typed pointer arguments into shared objects against separate objects (C02)
//  mem   : arguments flush against inaccessible pages, inputs read-only, every admissible alignment, two prefills (C04)
//  state : writable data of the library stays as it was; repeating a call, after any other call, is bit-identical (C05)
#include "gen.hpp"
#include <link.h>
#include <functional>
static bool thorough; static long CAP = 400; static int SETS = 1; static std::string only; static FILE *OUT;
static long long scanned, states, calls, checks, skipped, nfail;
static std::map<std::string, int> seen;
static void fail(const std::string &fn, const std::string &lib, const std::string &key, const std::string &msg, const std::string &args) {
  nfail++; if (seen[fn + "|" + lib + "|" + key]++) return;
  fprintf(OUT, "{\"fn\":\"%s\",\"lib\":\"%s\",\"key\":\"%s\",\"case\":%lld,\"msg\":\"%s\",\"args\":\"%s\"}\n", fn.c_str(), lib.c_str(), jesc2(key).c_str(), states, jesc2(msg).c_str(), jesc2(args).c_str()); fflush(OUT);
}
static sigjmp_buf jb; static volatile int armed; static void *fault_addr;
static void onsig(int s, siginfo_t *si, void *) { fault_addr = si->si_addr; if (armed) { armed = 0; siglongjmp(jb, s); } _exit(97); }
static void arm() { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onsig; sa.sa_flags = SA_SIGINFO | SA_NODEFER; for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, 0); }
static unsigned char stackfill = 0x5A; static bool fpenv_changed;
static __attribute__((noinline)) void scribble() { volatile unsigned char b[6000]; memset((void *)b, stackfill, sizeof b); asm volatile("" ::"r"(b) : "memory"); }
static int guarded(gfn g, void **a) { ++calls; int s = sigsetjmp(jb, 0); if (s) return s; unsigned c0 = __builtin_ia32_stmxcsr(); unsigned short x0, x1; asm volatile("fnstcw %0" : "=m"(x0)); armed = 1; g(a); armed = 0; asm volatile("fnstcw %0" : "=m"(x1)); if ((c0 ^ __builtin_ia32_stmxcsr()) & 0xffc0 || x0 != x1) { fpenv_changed = true; __builtin_ia32_ldmxcsr(c0); asm volatile("fldcw %0" ::"m"(x0)); } return 0; }
struct Outc { std::vector<W> w; uint32_t ret; int sig; };
static const uint32_t FILLW = 0x7fa0dead;
static Outc run1(const GFunc &f, gfn g, const Tuple &t) {
  static Slots s; for (int i = 0; i < f.np; i++) for (int k = 0; k < 48; k++) s.mem[i][k] = FILLW; s.set(f, t);
  Outc o; o.sig = guarded(g, s.a); o.ret = f.ret == 'v' ? 0 : s.ret; if (f.ret == 'b') o.ret = (o.ret & 0xff) != 0;
  for (int i = 0; i < f.np; i++) o.w.push_back(W(s.mem[i], s.mem[i] + f.p[i].n + 4)); return o;
}
static bool isnanw(uint32_t u) { return (u & 0x7fffffff) > 0x7f800000; }
// envelope of the reference under small input perturbations
struct Env { Outc base; std::vector<std::vector<double>> spread; double rspread; bool stable; };
static Env envelope(const GFunc &f, gfn g, const Tuple &t, int np = 5) {
  Env e; e.base = run1(f, g, t); e.stable = true; e.rspread = 0; for (int i = 0; i < f.np; i++) e.spread.push_back(std::vector<double>(f.p[i].n, 0.0));
  for (int k = 0; k < np; k++) { Outc q = run1(f, g, perturb(f, t, k)); if (q.sig != e.base.sig) e.stable = false;
    if (f.ret == 'f') { double d = fabs((double)wf(q.ret) - wf(e.base.ret)); if (!(d == d)) d = isnanw(q.ret) && isnanw(e.base.ret) ? 0 : INFINITY; e.rspread = std::max(e.rspread, d); } else if (q.ret != e.base.ret) e.stable = false;
    for (int i = 0; i < f.np; i++) if (isout(f.p[i])) for (int j = 0; j < f.p[i].n; j++) { if (f.p[i].base == 'i') { if (q.w[i][j] != e.base.w[i][j]) e.stable = false; continue; } if ((q.w[i][j] == FILLW) != (e.base.w[i][j] == FILLW)) e.stable = false; double d = fabs((double)wf(q.w[i][j]) - wf(e.base.w[i][j])); if (!(d == d)) d = isnanw(q.w[i][j]) && isnanw(e.base.w[i][j]) ? 0 : INFINITY; e.spread[i][j] = std::max(e.spread[i][j], d); } }
  return e;
}
static bool closef(uint32_t g, uint32_t w, double spread, double scale, double K) {
  ++checks; if (g == w) return true; float a = wf(g), b = wf(w); if (isnanw(g) && isnanw(w)) return true; if (spread == INFINITY) { skipped++; return true; } if (a == b) return true;
  if (!std::isfinite(a) || !std::isfinite(b)) { if (!std::isfinite(a) && !std::isfinite(b)) return true; return fabs(std::isfinite(a) ? a : b) > 1e30; }
  return fabs((double)a - b) <= K * (8 * spread + 4e-6 * scale) + 1e-36;
}
// first difference between an outcome and the reference, or "" ; tolerance from the envelope
static double slack(const GFunc &f);
static std::string differ(const GFunc &f, const Tuple &t, const Env &e, const Outc &q, double K) {
  K *= slack(f); double piv = 0; for (int i = 0; i < f.np; i++) if (nm(f.p[i], "pivot")) for (uint32_t x : t[i]) piv = std::max(piv, (double)fabsf(wf(x)));   if (piv > 0) { double mx = 1; for (int i = 0; i < f.np; i++) if (isin(f.p[i]) && !strncmp(f.p[i].ctype, "mat", 3)) for (uint32_t x : t[i]) if (std::isfinite(wf(x))) mx = std::max(mx, (double)fabsf(wf(x))); piv *= mx; }   // moved there and back: cancels
  double base = has(f.name, "perlin") ? 4 : has(f.name, "_angle") ? 200 : 0, flat = 0;
  if (has(f.name, "smoothinterp") || has(f.name, "bezier") || has(f.name, "hermite") || has(f.name, "smc")) for (int i = 0; i < f.np; i++) if (isin(f.p[i]) && f.p[i].base == 'f') for (uint32_t x : t[i]) if (std::isfinite(wf(x)) && fabsf(wf(x)) < 1e6f) base = flat = std::max(base, (double)fabsf(wf(x)));   // flat in the parameter there: cancels
  char b[256]; if (!e.stable) { skipped++; return ""; }
  if (q.sig != e.base.sig) { snprintf(b, sizeof b, "ends with signal %d, reference with %d", q.sig, e.base.sig); return b; } if (q.sig) return "";
  if (f.ret == 'f') { if (!closef(q.ret, e.base.ret, e.rspread, std::max(base, (double)fabs(wf(e.base.ret))), K)) { snprintf(b, sizeof b, "returns %.9g, reference %.9g (sensitivity %.2g)", wf(q.ret), wf(e.base.ret), e.rspread); return b; } }
  else if (++checks, q.ret != e.base.ret) { snprintf(b, sizeof b, "returns %d, reference %d", (int)q.ret, (int)e.base.ret); return b; }
  for (int i = 0; i < f.np; i++) {
    for (int j = 0; j < f.p[i].n + 4; j++) if (j >= f.p[i].n || !isout(f.p[i])) { ++checks; uint32_t w = j >= f.p[i].n ? FILLW : t[i][j]; if (q.w[i][j] != w) { snprintf(b, sizeof b, "changed word %d of %s%s", j, f.p[i].name, j >= f.p[i].n ? " (past its end)" : ", an input"); return b; } }
    if (!isout(f.p[i])) continue; double sc = std::max(piv, flat); for (int j = 0; j < f.p[i].n; j++) { double x = fabs((double)wf(e.base.w[i][j])); if (std::isfinite(x) && e.base.w[i][j] != FILLW) sc = std::max(sc, x); }
    for (int j = 0; j < f.p[i].n; j++) { uint32_t x = q.w[i][j], y = e.base.w[i][j];
      if (f.p[i].base == 'i') { ++checks; if (x != y) { snprintf(b, sizeof b, "%s[%d] is %d, reference %d", f.p[i].name, j, (int)x, (int)y); return b; } continue; }
      if ((x == FILLW) != (y == FILLW)) { snprintf(b, sizeof b, "%s[%d] is %s, reference %s", f.p[i].name, j, x == FILLW ? "not written" : "written", y == FILLW ? "not written" : "written"); return b; }
      if (!closef(x, y, e.spread[i][j], sc, K)) { snprintf(b, sizeof b, "%s[%d] is %.9g, reference %.9g (sensitivity %.2g)", f.p[i].name, j, wf(x), wf(y), e.spread[i][j]); return b; } } }
  return "";
}
static double slack(const GFunc &f) { return has(f.name, "inv_fast") ? 200 : has(f.name, "refract") || has(f.name, "slerp") ? 4 : 1; }
static bool emu(const GLib &l) { return l.cfg.find("neon") == 0 || l.cfg == "wasm"; }
// unusual but harmless arguments: finite, not tiny or huge, with finite results; easing and ray tests at a tie are C30's and C28's
static bool comparable(const GFunc &f) { return !has(f.name, "ease_") && !has(f.name, "glm_ray_"); }
static bool ordinary(const GFunc &f, const Tuple &t) { for (int i = 0; i < f.np; i++) if (isin(f.p[i]) && f.p[i].base == 'f') for (uint32_t w : t[i]) { float x = fabsf(wf(w)); if (!(x == 0 || (x > 1e-4f && x < 1e6f))) return false; } return true; }
static bool finite(const GFunc &f, const Outc &o) { if (o.sig) return true; if (f.ret == 'f' && !std::isfinite(wf(o.ret))) return false; for (int i = 0; i < f.np; i++) if (isout(f.p[i]) && f.p[i].base == 'f') for (int j = 0; j < f.p[i].n; j++) if (!std::isfinite(wf(o.w[i][j]))) return false; return true; }
// ------------------------------------------------------------------------------------------------- eq
struct Regs { std::map<std::string, W> r[2]; };
static std::string tkey(const GParam &p) { return p.kind == 'v' || p.arr || ct(p, "float") || ct(p, "int") ? "" : p.ctype; }
static void eq1(const std::vector<GLib> &L, int fi, const Tuple &t, const char *how) {
  const GFunc &f = GFUNCS[fi]; if (!valid(f, t)) return; ++states; Env e = envelope(f, L[0].gen[fi], t, 5);
  for (size_t l = 1; l < L.size(); l++) { if (!L[l].gen[fi]) continue; Outc q = run1(f, L[l].gen[fi], t); std::string d = differ(f, t, e, q, emu(L[l]) ? 4 : 1); if (!d.empty()) fail(f.name, L[l].cfg + "/" + L[l].surf, "", d + (how[0] ? std::string(" [after ") + how + "]" : ""), show(f, t)); }
}
static bool tame(const GFunc &f, const Outc &o) { for (int i = 0; i < f.np; i++) if (isout(f.p[i]) && f.p[i].base == 'f') for (int j = 0; j < f.p[i].n; j++) { float x = wf(o.w[i][j]); if (!(fabsf(x) < 1e5f)) return false; } return !o.sig; }
static Tuple fromregs(const GFunc &f, const Regs &R, int variant) { Tuple t; std::map<std::string, int> used; for (int i = 0; i < f.np; i++) { const GParam &p = f.p[i]; std::string k = tkey(p); if (isin(p) && !k.empty() && R.r[0].count(k)) { int u = used[k]++; t.push_back(R.r[(u + variant) & 1].at(k)); } else if (isin(p)) { Pool P = pool(f, p); t.push_back(P[variant % P.size()]); } else t.push_back(W(p.n, FILLW)); } return t; }
static void chains(const std::vector<GLib> &L, int f1, int depth, const Regs &R0, const std::string &hist, int mode) {
  const GFunc &f = GFUNCS[f1]; if (!L[0].gen[f1]) return; bool wr = false; for (int i = 0; i < f.np; i++) if (isout(f.p[i]) && !tkey(f.p[i]).empty()) wr = true; if (!wr) return;
  for (int v = 0; v < 2; v++) { Tuple t = fromregs(f, R0, v); Outc o = run1(f, L[0].gen[f1], t); if (!valid(f, t) || !tame(f, o)) continue;
    Regs R = R0; std::set<std::string> wrote; for (int i = 0; i < f.np; i++) if (isout(f.p[i]) && !tkey(f.p[i]).empty()) { std::string k = tkey(f.p[i]); R.r[0][k] = W(o.w[i].begin(), o.w[i].begin() + f.p[i].n); wrote.insert(k); if (k == "vec4") { R.r[1]["versor"] = R.r[0][k]; wrote.insert("versor"); } if (k == "versor") { R.r[1]["vec4"] = R.r[0][k]; wrote.insert("vec4"); } if (k == "mat4") { W m3; for (int c = 0; c < 3; c++) for (int r = 0; r < 3; r++) m3.push_back(R.r[0][k][c * 4 + r]); R.r[1]["mat3"] = m3; wrote.insert("mat3"); } }
    std::string h = hist + (hist.empty() ? "" : ", ") + f.name;
    for (int f2 = 0; f2 < NGFUNCS; f2++) { if (!L[0].gen[f2]) continue; const GFunc &g = GFUNCS[f2]; bool uses = false; for (int i = 0; i < g.np; i++) if (isin(g.p[i]) && wrote.count(tkey(g.p[i]))) uses = true; if (!uses) continue;
      for (int w = 0; w < 2; w++) eq1(L, f2, fromregs(g, R, w), ("c " + h).c_str() + 0); 
      if (depth > 2) chains(L, f2, depth - 1, R, h, mode); } }
}
static Regs regs0(int k) { Regs R; for (int q = 0; q < 2; q++) for (int fi = 0; fi < NGFUNCS; fi++) for (int i = 0; i < GFUNCS[fi].np; i++) { const GParam &p = GFUNCS[fi].p[i]; std::string t = tkey(p); if (t.empty() || p.kind == 'v' || R.r[q].count(t) || nm(p, "vp") || nm(p, "viewport")) continue; GParam pp = p; pp.name = "x"; Pool P = pool(GFUNCS[fi], pp); R.r[q][t] = P[(k * 2 + q) % P.size()]; } return R; }
static void mode_eq(const std::vector<GLib> &L, int part, int parts, int chain) {
  for (int fi = part; fi < NGFUNCS; fi += parts) { if (!only.empty() && only != GFUNCS[fi].name) continue; if (!L[0].gen[fi]) continue;
    tuples(GFUNCS[fi], CAP, [&](const Tuple &t) { eq1(L, fi, t, ""); }); if (comparable(GFUNCS[fi])) exotic(GFUNCS[fi], thorough ? 48 : 12, [&](const Tuple &t) { if (!ordinary(GFUNCS[fi], t)) return; Outc o = run1(GFUNCS[fi], L[0].gen[fi], t); if (finite(GFUNCS[fi], o)) eq1(L, fi, t, ""); }); }
  if (!chain) return;
  for (int k = 0; k < SETS; k++) { Regs R = regs0(k); for (int fi = part; fi < NGFUNCS; fi += parts) { chains(L, fi, k ? 2 : chain, R, "", 0); } }
}
// ------------------------------------------------------------------------------------------------- alias
static void mode_alias(const std::vector<GLib> &L, int part, int parts) {
  for (int fi = part; fi < NGFUNCS; fi += parts) { const GFunc &f = GFUNCS[fi]; if (!only.empty() && only != f.name) continue;
    std::vector<int> ptrs; for (int i = 0; i < f.np; i++) if (f.p[i].kind != 'v' && (f.p[i].n > 1 || f.p[i].dir != 'o')) ptrs.push_back(i);
    auto same = [&](int a, int b) { const GParam &p = f.p[a], &q = f.p[b]; if (p.base != q.base || p.n != q.n || p.arr != q.arr) return false; if (!strcmp(p.ctype, q.ctype)) return true; auto v = [](const GParam &x) { return ct(x, "vec4") || ct(x, "versor"); }; return v(p) && v(q); };
    // partitions as restricted growth strings
    int n = ptrs.size(); if (n < 2) continue; std::vector<int> rg(n, 0);
    std::function<void(int, int)> rec = [&](int i, int mx) {
      if (i == n) { bool any = false; for (int a = 0; a < n; a++) { int w = 0, c = 0; for (int b = 0; b < n; b++) if (rg[b] == rg[a]) { c++; w += isout(f.p[ptrs[b]]); if (!same(ptrs[a], ptrs[b])) return; } if (w > 1) return; if (c > 1) any = true; } if (!any) return;
        std::string key; for (int a = 0; a < n; a++) { bool first = true; for (int b = 0; b < a; b++) if (rg[b] == rg[a]) first = false; if (!first) continue; int c = 0; for (int b = 0; b < n; b++) c += rg[b] == rg[a]; if (c < 2) continue; std::string s; for (int b = 0; b < n; b++) if (rg[b] == rg[a]) s += (s.empty() ? "" : "=") + std::string(f.p[ptrs[b]].name); key += (key.empty() ? "" : ",") + s; }
        auto one = [&](const Tuple &t0) {
          Tuple t = t0; for (int a = 0; a < n; a++) { int src = -1; for (int b = 0; b < n && src < 0; b++) if (rg[b] == rg[a] && isin(f.p[ptrs[b]])) src = ptrs[b]; if (src >= 0 && isin(f.p[ptrs[a]])) t[ptrs[a]] = t0[src]; }
          for (const GLib &l : L) { gfn g = l.gen[fi]; if (!g) continue; ++states; Env e = envelope(f, g, t, 3);
            static Slots s; for (int i = 0; i < f.np; i++) for (int k = 0; k < 48; k++) s.mem[i][k] = FILLW; s.set(f, t);
            std::vector<int> home(f.np); for (int i = 0; i < f.np; i++) home[i] = i;
            for (int a = 0; a < n; a++) { int h = -1; for (int b = 0; b < n; b++) if (rg[b] == rg[a] && (h < 0 || isin(f.p[ptrs[b]])) ) { if (h < 0 || !isin(f.p[h])) h = ptrs[b]; } home[ptrs[a]] = h; s.a[ptrs[a]] = s.mem[h]; }
            Outc q; q.sig = guarded(g, s.a); q.ret = f.ret == 'v' ? 0 : s.ret; if (f.ret == 'b') q.ret = (q.ret & 0xff) != 0;
            for (int i = 0; i < f.np; i++) { q.w.push_back(W(s.mem[home[i]], s.mem[home[i]] + f.p[i].n + 4)); bool shared_out = false; for (int b = 0; b < f.np; b++) if (b != i && home[b] == home[i] && isout(f.p[b])) shared_out = true; if (shared_out && !isout(f.p[i])) for (int j = 0; j < f.p[i].n; j++) q.w[i][j] = t[i][j]; }
            std::string d = differ(f, t, e, q, emu(l) ? 4 : 1); if (!d.empty()) fail(f.name, l.cfg + "/" + l.surf, key, "with " + key + " the same object: " + d + " (separate objects)", show(f, t)); } };
        tuples(f, CAP, one); if (comparable(f)) exotic(f, thorough ? 12 : 3, [&](const Tuple &t) { if (!ordinary(f, t)) return; for (const GLib &l : L) if (l.gen[fi]) { if (finite(f, run1(f, l.gen[fi], t))) one(t); break; } });
        fprintf(OUT, "{\"combo\":\"%s %s\"}\n", f.name, key.c_str()); return; }
      for (int v = 0; v <= mx; v++) { rg[i] = v; rec(i + 1, std::max(mx, v + 1)); } };
    rg[0] = 0; rec(1, 1); }
}
// ------------------------------------------------------------------------------------------------- mem
static char *RW[13], *RO[13]; static const int PG = 4096;
static void arenas() { for (int i = 0; i < 13; i++) { int fd = memfd_create("arena", 0); if (fd < 0 || ftruncate(fd, PG)) _exit(3);
    for (int k = 0; k < 2; k++) { char *b = (char *)mmap(0, 3 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (mmap(b + PG, PG, k ? PROT_READ : PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) _exit(3); (k ? RO : RW)[i] = b + PG; } close(fd); } }
static void mode_mem(const std::vector<GLib> &L, int part, int parts) {
  arenas();
  for (int fi = part; fi < NGFUNCS; fi += parts) { const GFunc &f = GFUNCS[fi]; if (!only.empty() && only != f.name) continue;
    for (const GLib &l : L) { gfn g = l.gen[fi]; if (!g) continue;
      bool full = true; auto one = [&](const Tuple &t) {
        Outc base = run1(f, g, t);
        // placements: all flush at the end; all flush at the start; each argument alone at every admissible offset modulo 64
        std::vector<std::vector<int>> PL; std::vector<int> endp(f.np), startp(f.np, 0); for (int i = 0; i < f.np; i++) { int al = walign(f.p[i], l); endp[i] = (PG - 4 * f.p[i].n) / al * al; } PL.push_back(endp); PL.push_back(startp);
        for (int i = 0; i < f.np; i++) if (f.p[i].kind != 'v') for (int o = 0, al = walign(f.p[i], l); o < 64; o += al) { std::vector<int> q = endp; q[i] = 1024 + o; PL.push_back(q); }
        if (!full) PL.resize(2);
        if (thorough && full) { for (int o = 4; o < 64; o += 4) { std::vector<int> q(f.np); for (int i = 0; i < f.np; i++) { int al = walign(f.p[i], l); q[i] = 2048 + o / al * al; } PL.push_back(q); } }
        std::vector<W> first; uint32_t firstret = 0; bool have = false;
        for (size_t pi = 0; pi < PL.size(); pi++) for (int fillk = 0; fillk < 2; fillk++) { if (fillk && pi > 1) continue; ++states;
          unsigned char fill = fillk ? 0xA5 : 0x5A; void *a[14]; uint32_t ret = 0;
          for (int i = 0; i < f.np; i++) { memset(RW[i], fill, PG); if (isin(f.p[i])) memcpy(RW[i] + PL[pi][i], t[i].data(), 4 * f.p[i].n); a[i] = (isout(f.p[i]) ? RW[i] : RO[i]) + PL[pi][i]; } a[f.np] = &ret;
          stackfill = fill; scribble(); int sg = guarded(g, a); char b[300];
          auto pos = [&](int i) { char c[96]; snprintf(c, sizeof c, "%s %s", f.p[i].name, pi == 0 ? "flush against the end of its page" : pi == 1 ? "flush against the start of its page" : ""); std::string s = c; if (pi > 1) { snprintf(c, sizeof c, "at alignment %d", PL[pi][i] % 64); s += c; } return s; };
          if (sg && !base.sig) { std::string who = "some argument"; for (int i = 0; i < f.np; i++) for (int k = 0; k < 2; k++) { char *p0 = (k ? RO : RW)[i]; if ((char *)fault_addr >= p0 - PG && (char *)fault_addr < p0 + 2 * PG) { bool inside = (char *)fault_addr >= p0 && (char *)fault_addr < p0 + PG; snprintf(b, sizeof b, "%s %s", inside ? (k ? "writes to read-only input" : "faults on") : "accesses memory outside", pos(i).c_str()); who = b; } }
            snprintf(b, sizeof b, "signal %d: %s", sg, who.c_str()); std::string al; for (int i = 0; i < f.np; i++) if (f.p[i].kind != 'v') al += " " + pos(i) + ";"; fail(f.name, l.cfg + "/" + l.surf, "", std::string(b) + (who[0] == 's' ? " (misaligned access?) with" + al : ""), show(f, t)); break; }
          if (sg) break;
          for (int i = 0; i < f.np; i++) { int o = PL[pi][i], n = 4 * f.p[i].n; ++checks;
            for (int k = 0; k < PG; k++) if (k < o || k >= o + n) { if ((unsigned char)RW[i][k] != fill) { snprintf(b, sizeof b, "writes byte %d %s %s", k < o ? o - k : k - o - n, k < o ? "before" : "past the end of", pos(i).c_str()); fail(f.name, l.cfg + "/" + l.surf, "", b, show(f, t)); break; } }
            if (!isout(f.p[i]) && memcmp(RW[i] + o, t[i].data(), n)) { fail(f.name, l.cfg + "/" + l.surf, "", std::string("changes the input ") + f.p[i].name, show(f, t)); } }
          // the value does not depend on the placement nor on what the output held before (unless the operation leaves it alone entirely)
          std::vector<W> res; for (int i = 0; i < f.np; i++) { W w(f.p[i].n); memcpy(w.data(), RW[i] + PL[pi][i], 4 * f.p[i].n); res.push_back(w); } if (f.ret == 'v') ret = 0; if (f.ret == 'b') ret &= 0xff;
          if (!have) { first = res; firstret = ret; have = true; }
          else { uint32_t f0 = 0x5A5A5A5A, f1 = fill * 0x01010101u; ++checks; bool bad = false; std::string what; if (ret != firstret && !(f.ret == 'f' && isnanw(ret) && isnanw(firstret))) { bad = true; what = "the return value"; }
            for (int i = 0; i < f.np && !bad; i++) if (isout(f.p[i])) { bool un0 = true, un1 = true; if (!isin(f.p[i])) for (int j = 0; j < f.p[i].n; j++) { if (first[i][j] != f0) un0 = false; if (res[i][j] != f1) un1 = false; } else un0 = un1 = false; if (un0 && un1) continue; for (int j = 0; j < f.p[i].n; j++) if (first[i][j] != res[i][j] && !(f.p[i].base == 'f' && isnanw(first[i][j]) && isnanw(res[i][j]))) { bad = true; snprintf(b, sizeof b, "%s[%d]", f.p[i].name, j); what = b; break; } }
            if (bad) { fail(f.name, l.cfg + "/" + l.surf, "", what + (fillk ? " depends on what the output memory held before (not fully written, or read)" : " depends on the placement of the arguments or on memory next to them"), show(f, t)); } } } };
      tuples(f, CAP, one); full = false; exotic(f, thorough ? 6 : 2, one); } }
}
// ------------------------------------------------------------------------------------------------- state
struct Seg { char *p; size_t n; };
static std::vector<Seg> wsegs(const GLib &l) {
  std::vector<Seg> out; struct link_map *lm; if (dlinfo(l.h, RTLD_DI_LINKMAP, &lm)) return out; struct Ctx { ElfW(Addr) base; std::vector<Seg> *o; } c = {lm->l_addr, &out};
  dl_iterate_phdr([](struct dl_phdr_info *i, size_t, void *v) { Ctx *c = (Ctx *)v; if (i->dlpi_addr != c->base) return 0; char *rs = 0, *re = 0; for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) { rs = (char *)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr); re = rs + i->dlpi_phdr[k].p_memsz; }
    for (int k = 0; k < i->dlpi_phnum; k++) { auto &h = i->dlpi_phdr[k]; if (h.p_type != PT_LOAD || !(h.p_flags & PF_W)) continue; char *s = (char *)(i->dlpi_addr + h.p_vaddr), *e = s + h.p_memsz; if (rs && s < re && e > rs) s = re; if (s < e) c->o->push_back({s, (size_t)(e - s)}); } return 1; }, &c);
  return out;
}
static bool bitsame(const GFunc &f, const Outc &a, const Outc &b) { if (a.sig != b.sig) return false; if (a.sig) return true; ++checks; if (f.ret != 'v' && a.ret != b.ret) return false; for (int i = 0; i < f.np; i++) if (a.w[i] != b.w[i]) return false; return true; }
static void mode_state(const std::vector<GLib> &L, int part, int parts) {
  for (const GLib &l : L) { std::vector<Seg> S = wsegs(l); std::vector<std::vector<char>> snap; for (auto &s : S) snap.push_back(std::vector<char>(s.p, s.p + s.n));
    auto restore = [&] { for (size_t k = 0; k < S.size(); k++) memcpy(S[k].p, snap[k].data(), S[k].n); };
    // first tuple results of every function, each computed from the initial state of the library
    std::vector<std::vector<Tuple>> T(NGFUNCS); std::vector<std::vector<Outc>> O(NGFUNCS);
    for (int fi = 0; fi < NGFUNCS; fi++) { if (!l.gen[fi]) continue; std::vector<Tuple> all; tuples(GFUNCS[fi], 40, [&](const Tuple &t) { all.push_back(t); }); size_t keep = thorough ? 8 : 4; for (size_t k = 0; k < keep && k < all.size(); k++) T[fi].push_back(all[k * all.size() / std::min(keep, all.size())]); for (auto &t : T[fi]) { restore(); O[fi].push_back(run1(GFUNCS[fi], l.gen[fi], t)); } }
    restore();
    // every call that leaves the library's own memory changed is repeated and followed by every operation over its whole product
    auto dirty = [&] { for (size_t k = 0; k < S.size(); k++) if (memcmp(S[k].p, snap[k].data(), S[k].n)) return true; return false; }; long budget = thorough ? 200000000 : 20000000;
    for (int a = part; a < NGFUNCS; a += parts) { if (!l.gen[a] || (!only.empty() && only != GFUNCS[a].name)) continue; int kept = 0; gfn ga = l.gen[a];
      auto one = [&](const Tuple &d) { if (kept >= 4 || budget < 0) return; ++scanned; Outc o = run1(GFUNCS[a], ga, d); if (!dirty()) return; kept++; restore(); o = run1(GFUNCS[a], ga, d);
        for (int k = 0; k < 600; k++) { Outc y = run1(GFUNCS[a], ga, d); ++states; if (!bitsame(GFUNCS[a], y, o)) { fail(GFUNCS[a].name, l.cfg + "/" + l.surf, "repeat", "gives another result when the call is repeated", show(GFUNCS[a], d)); break; } } restore();
        for (int b = 0; b < NGFUNCS && budget > 0; b++) { if (!l.gen[b]) continue; bool bad = false; auto two = [&](const Tuple &t) { if (bad) return; budget -= 3; ++states; restore(); Outc o = run1(GFUNCS[b], l.gen[b], t); restore(); run1(GFUNCS[a], ga, d); Outc y = run1(GFUNCS[b], l.gen[b], t); if (!bitsame(GFUNCS[b], y, o)) { bad = true; fail(GFUNCS[b].name, l.cfg + "/" + l.surf, "order", std::string("gives another result after a call of ") + GFUNCS[a].name, show(GFUNCS[b], t) + " after " + show(GFUNCS[a], d)); } }; if (b == a) { tuples(GFUNCS[b], 400, two); exotic(GFUNCS[b], 3, two); } else { tuples(GFUNCS[b], 60, two); if (thorough) exotic(GFUNCS[b], 2, two); } } restore(); };
      tuples(GFUNCS[a], thorough ? 4000 : 400, one); exotic(GFUNCS[a], thorough ? 8 : 3, one); }
    restore();
    // every ordered pair (g, then f), every kept tuple of each at least once, without resetting the library in between: depth-2 histories of every pair and one long history
    for (int a = part; a < NGFUNCS; a += parts) { if (!l.gen[a] || (!only.empty() && only != GFUNCS[a].name)) continue;
      for (int b = 0; b < NGFUNCS; b++) { if (!l.gen[b]) continue; size_t na = T[a].size(), nb = T[b].size(); bool same = a == b; if (!na || !nb) continue;
        size_t reps = same ? na * nb : std::max(na, nb); for (size_t k = 0; k < reps; k++) { size_t i = same ? k / nb : k % na, j = same ? k % nb : (k * 7 + k / nb) % nb; restore(); ++states; Outc x = run1(GFUNCS[b], l.gen[b], T[b][j]); (void)x; Outc y = run1(GFUNCS[a], l.gen[a], T[a][i]); if (fpenv_changed) { fpenv_changed = false; fail(GFUNCS[a].name, l.cfg + "/" + l.surf, "fpenv", "changes the floating-point control state", show(GFUNCS[a], T[a][i])); } if (!bitsame(GFUNCS[a], y, O[a][i])) fail(GFUNCS[a].name, l.cfg + "/" + l.surf, "order", std::string("gives another result after a call of ") + GFUNCS[b].name, show(GFUNCS[a], T[a][i]) + " after " + show(GFUNCS[b], T[b][j])); } } }
    // repeated and three-step histories f(x) f(y) f(x)
    for (int a = part; a < NGFUNCS; a += parts) { if (!l.gen[a] || (!only.empty() && only != GFUNCS[a].name)) continue; for (size_t i = 0; i < T[a].size(); i++) for (size_t j = 0; j < T[a].size(); j++) { restore(); ++states; for (size_t k : {i, j, i, i, j}) { Outc y = run1(GFUNCS[a], l.gen[a], T[a][k]); if (!bitsame(GFUNCS[a], y, O[a][k])) fail(GFUNCS[a].name, l.cfg + "/" + l.surf, "repeat", "gives another result when the call is repeated", show(GFUNCS[a], T[a][k])); } } }
    restore(); }
}
int main(int argc, char **argv) {
  std::string mode = argv[1]; int jobs = 8; std::vector<GLib> L; int chain = 0;
  for (int i = 2; i < argc; i++) { std::string a = argv[i]; if (a == "-j") jobs = atoi(argv[++i]); else if (a == "--thorough") thorough = true; else if (a == "--chains") chain = std::max(chain, 2); else if (a == "--cap") CAP = atol(argv[++i]); else if (a == "--sets") SETS = atoi(argv[++i]); else if (a == "--depth") chain = atoi(argv[++i]); else if (a == "--only") only = argv[++i]; else L.push_back(gload(a)); }
  // text output is C33's (one rounding apart may print differently); the chain product is documented for distinct objects
  for (auto &l : L) { gfn *g = new gfn[NGFUNCS]; for (int i = 0; i < NGFUNCS; i++) g[i] = has(GFUNCS[i].header, "adapter") && (mode == "alias" || (mode == "eq" && has(GFUNCS[i].name, "print"))) ? 0 : l.gen[i]; l.gen = g; }
  struct C { pid_t p; int fd; std::string out; }; std::vector<C> ch; int parts = only.empty() ? jobs * 4 : 1, next = 0; int bad = 0;
  while (next < parts || !ch.empty()) {
    while ((int)ch.size() < jobs && next < parts) { int part = next++; int p[2]; if (pipe(p)) return 2; fflush(stdout); pid_t pid = fork();
      if (!pid) { close(p[0]); OUT = fdopen(p[1], "w"); arm(); struct rlimit rl = {3000, 3000}; setrlimit(RLIMIT_CPU, &rl); rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
        if (mode == "eq") mode_eq(L, part, parts, chain); else if (mode == "alias") mode_alias(L, part, parts); else if (mode == "mem") mode_mem(L, part, parts); else mode_state(L, part, parts);
        fprintf(OUT, "{\"stats\":1,\"states\":%lld,\"calls\":%lld,\"checks\":%lld,\"skipped\":%lld,\"nfail\":%lld}\n", states, calls, checks, skipped, nfail); fflush(OUT); _exit(0); }
      close(p[1]); ch.push_back({pid, p[0], ""}); }
    std::vector<pollfd> pf; for (auto &c : ch) pf.push_back({c.fd, POLLIN, 0}); poll(pf.data(), pf.size(), 1000);
    for (size_t i = 0; i < pf.size(); i++) if (pf[i].revents) { char b[65536]; ssize_t k = read(ch[i].fd, b, sizeof b); if (k > 0) { ch[i].out.append(b, k); continue; } int st; waitpid(ch[i].p, &st, 0); close(ch[i].fd); fputs(ch[i].out.c_str(), stdout); if (!WIFEXITED(st) || WEXITSTATUS(st)) { printf("{\"died\":%d}\n", st); bad = 1; } ch[i].p = -1; }
    ch.erase(std::remove_if(ch.begin(), ch.end(), [](const C &c) { return c.p == -1; }), ch.end()); }
  return bad;
}
