// Controlled scheduler: two concurrent library calls, instrumented at every memory access (compiler thread-sanitizer hooks with this runtime behind them).
//   threads [-j N] [--thorough] [--only FUNCTION] cfg:surface:lib.so ...
// Phase 1 records for every function and tuple which memory other threads can see is read and written. Two calls whose footprints do not conflict
// have a single Mazurkiewicz trace; phase 2 explores all interleavings with bounded preemptions for conflicting pairs, and (validating the reduction)
// all single-preemption interleavings of ordered pairs whether or not they conflict.
#include "gen.hpp"
#include <link.h>
#include <setjmp.h>
static bool thorough; static std::string only; static FILE *OUT;
static long long schedules, pairs_, checks, switches, accesses, footprints, conflicts, nfail; static std::map<std::string, int> seen;
static void fail(const std::string &fn, const std::string &lib, const std::string &key, const std::string &msg, const std::string &args) { nfail++; if (seen[fn + "|" + lib]++) return; fprintf(OUT, "{\"fn\":\"%s\",\"lib\":\"%s\",\"key\":\"%s\",\"case\":%lld,\"msg\":\"%s\",\"args\":\"%s\"}\n", fn.c_str(), lib.c_str(), jesc2(key).c_str(), schedules, jesc2(msg).c_str(), jesc2(args).c_str()); fflush(OUT); }
// ---- coroutines
static const size_t STK = 256 * 1024;
struct Co { char *stk; void *sp; bool done; gfn g; void **a; long ev; };
static Co co[2]; static void *mainsp; static int cur = -1; static long target = -1;      // switch away from the current coroutine when its event counter reaches target
extern "C" void cosw(void **save, void *load);
asm(".text\n.globl cosw\ncosw:\n push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n mov %rsp,(%rdi)\n mov %rsi,%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n");
static void comain() { Co &c = co[cur]; c.g(c.a); c.done = true; void *d; cosw(&d, mainsp); abort(); }
static void cinit(int i, gfn g, void **a) { Co &c = co[i]; if (!c.stk) { c.stk = (char *)mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); } c.done = false; c.g = g; c.a = a; c.ev = 0; void **s = (void **)(c.stk + STK); *--s = 0; *--s = (void *)comain; for (int k = 0; k < 6; k++) *--s = 0; c.sp = s; }
static void crun(int i, long until) { cur = i; target = until; switches++; cosw(&mainsp, co[i].sp); cur = -1; }   // run coroutine i until it has performed `until` events (-1: to its end)
struct Acc { uintptr_t p; int n; bool w; }; static std::vector<Acc> *rec;
static inline void access(void *p, int n, bool w) {
  if (cur < 0) return; Co &c = co[cur]; if ((char *)p >= c.stk && (char *)p < c.stk + STK) return;
  accesses++; if (rec) rec->push_back({(uintptr_t)p, n, w});
  if (c.ev == target) { int me = cur; target = -1; cosw(&co[me].sp, mainsp); } co[cur].ev++;
}
extern "C" {
#define RW(n) void __tsan_read##n(void *p) { access(p, n, 0); } void __tsan_write##n(void *p) { access(p, n, 1); } void __tsan_unaligned_read##n(void *p) { access(p, n, 0); } void __tsan_unaligned_write##n(void *p) { access(p, n, 1); } void __tsan_volatile_read##n(void *p) { access(p, n, 0); } void __tsan_volatile_write##n(void *p) { access(p, n, 1); } void __tsan_read_write##n(void *p) { access(p, n, 0); access(p, n, 1); } void __tsan_unaligned_read_write##n(void *p) { access(p, n, 0); access(p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, long n) { access(p, n, 0); } void __tsan_write_range(void *p, long n) { access(p, n, 1); }
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
void *__tsan_memcpy(void *d, const void *s, size_t n) { access((void *)s, n, 0); access(d, n, 1); return memmove(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { access((void *)s, n, 0); access(d, n, 1); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { access(d, n, 1); return memset(d, c, n); }
#define AT(b, T) T __tsan_atomic##b##_load(const volatile T *p, int) { access((void *)p, b / 8, 0); return *p; } void __tsan_atomic##b##_store(volatile T *p, T v, int) { access((void *)p, b / 8, 1); *p = v; } T __tsan_atomic##b##_exchange(volatile T *p, T v, int) { access((void *)p, b / 8, 1); T o = *p; *p = v; return o; } T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int) { access((void *)p, b / 8, 1); T o = *p; *p = o + v; return o; } T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int) { access((void *)p, b / 8, 1); T o = *p; *p = o - v; return o; } T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int) { access((void *)p, b / 8, 1); T o = *p; *p = o | v; return o; } T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int) { access((void *)p, b / 8, 1); T o = *p; *p = o & v; return o; } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { access((void *)p, b / 8, 1); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *e, T v, int a, int c) { return __tsan_atomic##b##_compare_exchange_strong(p, e, v, a, c); } T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T e, T v, int, int) { access((void *)p, b / 8, 1); T o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
}
// ---- calls: input-only arguments with equal contents are one shared object, everything else is private to the call
struct alignas(64) Cell { uint32_t w[48]; };
static std::map<std::pair<bool, W>, Cell *> shared_; static Cell *mk() { void *p; if (posix_memalign(&p, 64, sizeof(Cell))) abort(); return (Cell *)p; }
struct Call { const GFunc *f; int fi; Tuple t; Cell *c[13]; void *a[14]; uint32_t ret; };
static void prep(Call &k) { for (int i = 0; i < k.f->np; i++) { const GParam &p = k.f->p[i]; if (!isout(p) && p.kind != 'v') { Cell *&s = shared_[{p.base == 'i', k.t[i]}]; if (!s) { s = mk(); memset(s, 0, sizeof *s); memcpy(s->w, k.t[i].data(), 4 * k.t[i].size()); } k.c[i] = s; } else k.c[i] = mk(); k.a[i] = k.c[i]->w; } k.a[k.f->np] = &k.ret; }
static Call *twin(const Call &k) { static Call *c; if (!c) c = new Call; *c = k; prep(*c); return c; }
static void reset(Call &k) { for (int i = 0; i < k.f->np; i++) memcpy(k.c[i]->w, k.t[i].data(), 4 * k.t[i].size()); k.ret = 0x5ca1ab1e; }
static std::vector<uint32_t> result(const Call &k) { std::vector<uint32_t> r; r.push_back(k.f->ret == 'v' ? 0 : k.f->ret == 'b' ? k.ret & 0xff : k.ret); for (int i = 0; i < k.f->np; i++) r.insert(r.end(), k.c[i]->w, k.c[i]->w + k.f->p[i].n); return r; }
static bool okres(const Call &k, const std::vector<uint32_t> &w) { ++checks; size_t q = 0; if ((k.f->ret == 'v' ? 0 : k.f->ret == 'b' ? k.ret & 0xff : k.ret) != w[q++]) return false; for (int i = 0; i < k.f->np; i++) { if (memcmp(k.c[i]->w, &w[q], 4 * k.f->p[i].n)) return false; q += k.f->p[i].n; } return true; }
struct Seg { char *p; size_t n; std::vector<char> snap; }; static std::vector<Seg> S;
static void wsegs(const GLib &l) { S.clear(); struct link_map *lm; if (dlinfo(l.h, RTLD_DI_LINKMAP, &lm)) return; static ElfW(Addr) base; base = lm->l_addr;
  dl_iterate_phdr([](struct dl_phdr_info *i, size_t, void *) { if (i->dlpi_addr != base) return 0; char *rs = 0, *re = 0; for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) { rs = (char *)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr); re = rs + i->dlpi_phdr[k].p_memsz; }
    for (int k = 0; k < i->dlpi_phnum; k++) { auto &h = i->dlpi_phdr[k]; if (h.p_type != PT_LOAD || !(h.p_flags & PF_W)) continue; char *s = (char *)(i->dlpi_addr + h.p_vaddr), *e = s + h.p_memsz; if (rs && s < re && e > rs) s = re; if (s < e) S.push_back({s, (size_t)(e - s), std::vector<char>(s, e)}); } return 1; }, 0); }
static bool dirty() { for (auto &s : S) if (memcmp(s.p, s.snap.data(), s.n)) return true; return false; }
static bool statef; static void restore() { if (statef) for (auto &s : S) memcpy(s.p, s.snap.data(), s.n); }
static std::string lname;
static Call *warm; static gfn warmg;   // a call that ran before the two concurrent ones (hidden state may survive it)
// run A for k1 events, B for k2 events (-1: all), then A for k3 more ..., finish both
static bool sched(Call &A, gfn ga, Call &B, gfn gb, std::initializer_list<long> ks, const std::vector<uint32_t> &ra, const std::vector<uint32_t> &rb, bool &past) {
  restore(); if (warm) { reset(*warm); warmg(warm->a); } reset(A); reset(B); cinit(0, ga, A.a); cinit(1, gb, B.a); int w = 0; past = false;
  for (long k : ks) { if (!co[w].done) { crun(w, k < 0 ? -1 : co[w].ev + k); if (co[w].done && k >= 0) past = true; } w ^= 1; }
  for (int q = 0; q < 2; q++) { if (!co[w].done) crun(w, -1); w ^= 1; } ++schedules;
  bool oa = okres(A, ra), ob = okres(B, rb); if (oa && ob) return true; std::string s; for (long k : ks) s += " " + std::to_string(k);
  const Call &V = oa ? B : A, &O = oa ? A : B; fail(V.f->name, lname, O.f->name, std::string("gives another result when a call of ") + O.f->name + " runs concurrently" + (warm ? std::string(" after an earlier call of ") + warm->f->name + " with " + show(*warm->f, warm->t) : "") + " (schedule: accesses per turn" + s + ", then to the end)", show(*V.f, V.t) + " with " + show(*O.f, O.t)); return false;
}
static void explore(Call &A, gfn ga, Call &B, gfn gb, int bound, const std::vector<uint32_t> &ra, const std::vector<uint32_t> &rb) {
  bool past = false; for (long k = 0; !past && k < 5000; k++) { if (!sched(A, ga, B, gb, {k}, ra, rb, past) ) return; bool lastk = past;
    if (bound > 1) { bool p2 = false; for (long j = 1; !p2 && j < 5000; j++) { if (!sched(A, ga, B, gb, {k, j}, ra, rb, p2)) return; if (bound > 2) { bool p3 = false; for (long i = 1; !p3 && i < 400; i++) if (!sched(A, ga, B, gb, {k, j, i}, ra, rb, p3)) return; } p2 = co[1].done && p2; } } past = lastk; }
}
// which tuples touch the library's own writable memory in a way no tuple before them did (a flag raised or a cache consulted only for unusual arguments)
static sigjmp_buf jb; static void onsig(int s) { siglongjmp(jb, s); }
static long long scanned;
static std::vector<std::vector<Tuple>> scan(const GLib &l) {
  std::vector<std::vector<Tuple>> X(NGFUNCS); static Slots s; int sg[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL}; for (int q : sg) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_NODEFER; sigaction(q, &sa, 0); }
  for (int fi = 0; fi < NGFUNCS; fi++) { if (!l.gen[fi]) continue; std::map<std::set<std::pair<uintptr_t, bool>>, int> known;
    auto one = [&](const Tuple &t) { for (auto &q : S) memcpy(q.p, q.snap.data(), q.n); ++scanned; s.set(GFUNCS[fi], t); std::vector<Acc> log; rec = &log; if (!sigsetjmp(jb, 0)) { cinit(0, l.gen[fi], s.a); crun(0, -1); } cur = -1; rec = 0;
      std::set<std::pair<uintptr_t, bool>> fp; for (auto &a : log) for (auto &q : S) if (a.p >= (uintptr_t)q.p && a.p < (uintptr_t)q.p + q.n) for (int b = 0; b < a.n; b += 4) fp.insert({(a.p + b) & ~3ul, a.w}); if (!fp.empty() && known[fp] < 3 && X[fi].size() < 9) { known[fp]++; X[fi].push_back(t); } }; tuples(GFUNCS[fi], thorough ? 4000 : 400, one); exotic(GFUNCS[fi], thorough ? 8 : 3, one); }
  for (auto &q : S) memcpy(q.p, q.snap.data(), q.n); for (int q : sg) signal(q, SIG_DFL); return X;
}
int main(int argc, char **argv) {
  int jobs = 8; std::vector<GLib> L; for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a == "-j") jobs = atoi(argv[++i]); else if (a == "--thorough") thorough = true; else if (a == "--only") only = argv[++i]; else L.push_back(gload(a)); }
  std::vector<std::vector<std::vector<Tuple>>> XT; for (auto &l : L) { wsegs(l); XT.push_back(scan(l)); }
  struct C { pid_t p; int fd; std::string out; }; std::vector<C> ch; int parts = jobs * 4, next = 0, bad = 0;
  while (next < parts || !ch.empty()) {
    while ((int)ch.size() < jobs && next < parts) { int part = next++; int p[2]; if (pipe(p)) return 2; fflush(stdout); pid_t pid = fork();
      if (!pid) { close(p[0]); OUT = fdopen(p[1], "w"); struct rlimit rl = {3000, 3000}; setrlimit(RLIMIT_CPU, &rl); rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
        for (auto &l : L) { lname = l.cfg + "/" + l.surf; wsegs(l); statef = false; shared_.clear();
          struct Item { std::vector<Call *> k; std::vector<std::vector<uint32_t>> r; std::set<uintptr_t> rd, wr; }; std::vector<Item> I(NGFUNCS);
          auto inseg = [&](uintptr_t p, const Call &k) { for (auto &s : S) if (p >= (uintptr_t)s.p && p < (uintptr_t)s.p + s.n) return true; for (int i = 0; i < k.f->np; i++) if (!isout(k.f->p[i]) && k.f->p[i].kind != 'v' && p >= (uintptr_t)k.c[i] && p < (uintptr_t)(k.c[i] + 1)) return true; return false; };
          // phase 1
          for (int fi = 0; fi < NGFUNCS; fi++) { if (!l.gen[fi]) continue; std::vector<Tuple> all; tuples(GFUNCS[fi], 40, [&](const Tuple &t) { all.push_back(t); }); size_t keep = std::min<size_t>(all.size(), thorough ? 4 : 3);
            std::vector<Tuple> use; for (size_t k = 0; k < keep; k++) use.push_back(all[k * all.size() / keep]); for (const Tuple &t : XT[&l - &L[0]][fi]) use.push_back(t);
            for (const Tuple &t : use) { Call *c = new Call; c->f = &GFUNCS[fi]; c->fi = fi; c->t = t; prep(*c); for (auto &s : S) memcpy(s.p, s.snap.data(), s.n); reset(*c);
              std::vector<Acc> log; for (int pass = 0; pass < 2; pass++) { if (pass) reset(*c); rec = &log; cinit(0, l.gen[fi], c->a); crun(0, -1); rec = 0; if (!pass) I[fi].r.push_back(result(*c)); } footprints++;
              for (auto &a : log) if (inseg(a.p, *c)) for (int b = 0; b < a.n; b += 4) (a.w ? I[fi].wr : I[fi].rd).insert((a.p + b) & ~3ul); if (dirty()) statef = true; I[fi].k.push_back(c); } }
          if (statef) for (auto &s : S) memcpy(s.p, s.snap.data(), s.n);
          // phase 2
          for (int a = part; a < NGFUNCS; a += parts) { if (!l.gen[a] || (!only.empty() && only != GFUNCS[a].name)) continue;
            for (int b = 0; b < NGFUNCS; b++) { if (!l.gen[b] || I[a].k.empty() || I[b].k.empty()) continue; pairs_++; bool conf = false; for (uintptr_t w : I[a].wr) if (I[b].wr.count(w) || I[b].rd.count(w)) conf = true; for (uintptr_t w : I[b].wr) if (I[a].rd.count(w)) conf = true; conflicts += conf;
              if (conf) { for (size_t i = 0; i < I[a].k.size(); i++) for (size_t j = 0; j < I[b].k.size(); j++) explore(*I[a].k[i], l.gen[a], a == b && i == j ? *twin(*I[b].k[j]) : *I[b].k[j], l.gen[b], a == b ? 2 : 1, I[a].r[i], I[b].r[j]);
                for (int h = 0; h < (a == b ? 1 : 2); h++) for (Call *wc : I[h ? b : a].k) { warm = wc; warmg = l.gen[h ? b : a]; for (size_t i = 0; i < I[a].k.size(); i++) for (size_t j = 0; j < I[b].k.size(); j++) explore(*I[a].k[i], l.gen[a], a == b && i == j ? *twin(*I[b].k[j]) : *I[b].k[j], l.gen[b], thorough && a == b ? 2 : 1, I[a].r[i], I[b].r[j]); } warm = 0; continue; }
              if (a == b) { for (size_t i = 0; i < I[a].k.size(); i++) for (size_t j = 0; j < I[b].k.size(); j++) if (i != j) explore(*I[a].k[i], l.gen[a], *I[b].k[j], l.gen[b], thorough ? 3 : 2, I[a].r[i], I[b].r[j]); }
              else { size_t j = a < b ? 0 : I[b].k.size() - 1; explore(*I[a].k[0], l.gen[a], *I[b].k[j], l.gen[b], thorough ? 2 : 1, I[a].r[0], I[b].r[j]); } } } }
        fprintf(OUT, "{\"stats\":1,\"schedules\":%lld,\"pairs\":%lld,\"checks\":%lld,\"switches\":%lld,\"accesses\":%lld,\"footprints\":%lld,\"tuples_scanned\":%lld,\"conflicting_pairs\":%lld,\"nfail\":%lld}\n", schedules, pairs_, checks, switches, accesses, part ? 0 : footprints, part ? 0 : scanned, conflicts, nfail); fflush(OUT); _exit(0); }
      close(p[1]); ch.push_back({pid, p[0], ""}); }
    std::vector<pollfd> pf; for (auto &c : ch) pf.push_back({c.fd, POLLIN, 0}); poll(pf.data(), pf.size(), 1000);
    for (size_t i = 0; i < pf.size(); i++) if (pf[i].revents) { char b[65536]; ssize_t k = read(ch[i].fd, b, sizeof b); if (k > 0) { ch[i].out.append(b, k); continue; } int st; waitpid(ch[i].p, &st, 0); close(ch[i].fd); fputs(ch[i].out.c_str(), stdout); if (!WIFEXITED(st) || WEXITSTATUS(st)) { printf("{\"died\":%d}\n", st); bad = 1; } ch[i].p = -1; }
    ch.erase(std::remove_if(ch.begin(), ch.end(), [](const C &c) { return c.p == -1; }), ch.end()); }
  return bad;
}
