// C10: square matrix algebra
// API: mat[234]_mul mat[234]_mulv mat4_mulv3 mat[234]_det mat[234]_inv mat4_inv_fast mat[234]_rmc mat[234]_trace mat4_trace3 mat[234]_scale mat4_scale_p
#include "ref.hpp"
#define FILLD(N, d) for (int k_ = 0; k_ < N; k_++) d[k_] = 12345.f
#define ALLN(M_) M_(2) M_(3) M_(4)
static void rep(Run &r, const char *n, const FM &m, int k) { r.show(n, m.a, k); }
#define MUL(N) SITE(mat##N##_mul) { if (!HAVE(glm_mat##N##_mul)) return; auto A = mats(N, N, r.thorough ? 120 : 60); for (auto &p : A) for (auto &q : A) { r.tick(); A32 float a[N * N], b[N * N], d[N * N]; memcpy(a, p.a, sizeof a); memcpy(b, q.a, sizeof b); FILLD(N * N, d); r.show("m1", a, N * N); r.show("m2", b, N * N); \
  F(glm_mat##N##_mul)(a, b, d); near(r, "m1*m2", d, mulM(ld<N, N>(a), ld<N, N>(b))); } }
ALLN(MUL)
// operands close to a special one (identity, rigid, affine, symmetric, singular ...): shortcuts for the special ones must not catch them
#define MULN(N) SITE(mat##N##_mul_near) { if (!HAVE(glm_mat##N##_mul)) return; auto A = nearmats(N), B = mats(N, N, 24); size_t na = A.size(); for (size_t i = 2 * N * N; i < B.size(); i++) A.push_back(B[i]); for (size_t i = 0; i < A.size(); i++) for (size_t j = 0; j < A.size(); j++) { if (i < na && j < na && (i * 7 + j) % 5) continue; r.tick(); A32 float a[N * N], b[N * N], d[N * N]; memcpy(a, A[i].a, sizeof a); memcpy(b, A[j].a, sizeof b); FILLD(N * N, d); r.show("m1", a, N * N); r.show("m2", b, N * N); \
  F(glm_mat##N##_mul)(a, b, d); near(r, "m1*m2", d, mulM(ld<N, N>(a), ld<N, N>(b))); } }
ALLN(MULN)
#define MULV(N) SITE(mat##N##_mulv) { auto A = plusnear(mats(N, N, 40), N); auto V = plus<N>(product<N>(N == 4 ? FV{0.f, 1.f, -2.f, 0.3f} : FV{0.f, 1.f, -2.f, 0.3f, 100.f, 1e-3f})); for (auto &p : A) for (auto &q : V) { r.tick(); A32 float a[N * N], b[N], c[N], d[N]; memcpy(a, p.a, sizeof a); memcpy(b, q.a, sizeof b); FILLD(N, d); r.show("m", a, N * N); r.show("v", b, N); \
  if (HAVE(glm_mat##N##_mulv)) { F(glm_mat##N##_mulv)(a, b, d); near(r, "m*v", d, mulM(ld<N, N>(a), ld<1, N>(b))); } \
  if (HAVE(glm_mat##N##_rmc)) for (int o = 0; o < 6; o++) { for (int k = 0; k < N; k++) c[k] = o == 0 ? (k == 0) : o == 1 ? dv(k + 5) : o == 2 ? b[(k + 1) % N] : o == 3 ? 60 * dv(k + 9) : o == 4 ? 4e-3f * dv(k + 17) : b[k]; r.show("row", c, N); float g = F(glm_mat##N##_rmc)(c, a, b); r.near("row*m*col", g, mulM(ld<N, 1>(c), mulM(ld<N, N>(a), ld<1, N>(b))).a[0]); } } } \
SITE(mat##N##_rmc_basis) { if (!HAVE(glm_mat##N##_rmc)) return; auto A = mats(N, N, 20); for (auto &p : A) for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { r.tick(); A32 float a[N * N], b[N], c[N]; memcpy(a, p.a, sizeof a); for (int k = 0; k < N; k++) { b[k] = k == i; c[k] = k == j; } r.show("m", a, N * N); r.show("row", c, N); r.show("col", b, N); r.eqf("selects the entry", F(glm_mat##N##_rmc)(c, a, b), a[i * N + j]); } }
ALLN(MULV)
SITE(mat4_mulv3) { if (!HAVE(glm_mat4_mulv3)) return; auto A = plusnear(mats(4, 4, 40), 4); auto V = plus(product<3>({0.f, 1.f, -2.f, 0.3f})); for (auto &p : A) for (auto &q : V) for (float w : {0.f, 1.f, -0.5f, 3.f, 0.25f, -7.f, 50.f, 5e-3f, 900.f, -0.03f, 2e-4f, -60.f, 4000.f, -3e5f, 1.004f, 0.9997f}) { r.tick(); A32 float a[16], b[4], d[3]; memcpy(a, p.a, 64); memcpy(b, q.a, 12); b[3] = w; FILLD(3, d); r.show("m", a, 16); r.show("v,last", b, 4); F(glm_mat4_mulv3)(a, b, w, d); auto e = mulM(ld<4, 4>(a), ld<1, 4>(b)); r.nearv("xyz of m*v", d, e.a, 3); } }
// invertible alphabet: signed permutations, unit triangular products, scaled, dense, affine and projective
template<int N> static std::vector<FM> invs(bool big) {
  std::vector<FM> o; int p[4] = {0, 1, 2, 3};
  do { for (int s = 0; s < (1 << N); s++) { FM m; memset(&m, 0, sizeof m); for (int c = 0; c < N; c++) m.a[c * N + p[c]] = (s >> c & 1 ? -1.f : 1.f) * (1 + 0.5f * c); o.push_back(m); } } while (std::next_permutation(p, p + N));
  for (auto &m : mats(N, N, big ? 2000 : 300)) o.push_back(m);
  for (auto &m : nearmats(N)) o.push_back(m);
  for (int k = 0; k < N * N; k++) for (int l = 0; l < N * N; l++) for (float s : {0.5f, -3.f}) { FM m; for (int i = 0; i < N * N; i++) m.a[i] = i / N == i % N ? 1 : 0; m.a[k] += s; m.a[l] -= s * 0.7f; o.push_back(m); }
  if (N == 4) for (int d = 0; d < 200; d++) { FM m; memset(&m, 0, sizeof m); for (int c = 0; c < 4; c++) for (int w = 0; w < 3; w++) m.a[c * N + w] = dv(d * 91 + c * 3 + w) * (c == 3 ? 50 : 1); m.a[N * N - 1] = 1; o.push_back(m); }
  if (N == 4) for (int d = 0; d < 50; d++) { FM m; memset(&m, 0, sizeof m); m.a[0] = 1 + fabsf(dv(d)); m.a[N + 1] = 1 + fabsf(dv(d + 3)); m.a[(N == 4 ? 10 : 0)] = -1 - 0.01f * d; m.a[(N == 4 ? 11 : 0)] = -1; m.a[(N == 4 ? 14 : 0)] = -0.2f - d; o.push_back(m); }
  if (big || N < 3) for (auto &v : product<4>({0.f, 1.f, -2.f, 0.5f, 3.f, -0.7f, 1e-3f})) { FM m; memset(&m, 0, sizeof m); for (int i = 0; i < N * N; i++) m.a[i] = v.a[i % 4] + (i / 4) * 0.3f; o.push_back(m); }
  return o;
}
#define INV(N) SITE(mat##N##_det_inv) { for (auto &p : invs<N>(r.thorough)) { r.tick(); A32 float a[N * N], d[N * N]; memcpy(a, p.a, sizeof a); r.show("m", a, N * N); auto A = ld<N, N>(a); R dt = detM(A); \
  if (HAVE(glm_mat##N##_det)) r.near("det", F(glm_mat##N##_det)(a), dt, 16); \
  if (HAVE(glm_mat##N##_inv) && fabs(dt.v) > 1e-25 && dt.m < 1e5 * fabs(dt.v)) { FILLD(N * N, d); F(glm_mat##N##_inv)(a, d); auto e = invM(A); near(r, "inv", d, e, 48); } FAST##N } } \
SITE(mat##N##_small_inv) { if (!HAVE(glm_mat##N##_inv)) return; auto S = N == 2 ? FV{0.f, 1.f, -1.f, 2.f, 0.5f} : FV{0.f, 1.f, -1.f}; int n = N == 4 ? 12 : N * N; long long tot = 1; for (int i = 0; i < n; i++) tot *= S.size(); for (long long q = 0; q < tot; q++) { long long z = q; A32 float a[N * N], d[N * N]; for (int i = 0; i < N * N; i++) { int src = N == 4 ? (i % 4 == 3 ? -1 : i / 4 * 3 + i % 4) : i; if (src < 0) { a[i] = i == 15; continue; } a[i] = S[z % S.size()]; z /= S.size(); } \
  r.tick(); auto A = ld<N, N>(a); R dt = detM(A); if (r.on()) r.show("m", a, N * N); if (dt.v == 0) { if (HAVE(glm_mat##N##_det)) r.near("det of a singular matrix", F(glm_mat##N##_det)(a), dt, 16); continue; } FILLD(N * N, d); F(glm_mat##N##_inv)(a, d); near(r, "inv", d, invM(A), 48); } }
#define FAST2
#define FAST3
#define FAST4 if (HAVE(glm_mat4_inv_fast) && fabs(dt.v) > 1e-20 && fabs(dt.v) < 1e20 && dt.m < 1e5 * fabs(dt.v)) { FILLD(16, d); F(glm_mat4_inv_fast)(a, d); auto e = invM(A); for (int i = 0; i < 16; i++) r.near("inv_fast", d[i], e.a[i], 48, 6e-4 * fabs(e.a[i].v) + 1e-36); }
ALLN(INV)
#define TRS(N) SITE(mat##N##_trace_scale) { for (auto &p : plusnear(mats(N, N, 100), N)) for (float s : {1.004f, 0.9997f, 0.f, 1.f, -1.f, 2.f, 0.5f, -0.3f, 100.f, 1e-3f, -6.f, 20.f, -4000.f, -40.f, 3000.f, 2e5f, -3e-4f, 0.04f, 1e-5f, -300.f}) { r.tick(); A32 float a[N * N], d[N * N]; memcpy(a, p.a, sizeof a); r.show("m", a, N * N); r.show("s", s); R t(0), t3(0); for (int k = 0; k < N; k++) { t += R(a[k * N + k]); if (k < 3) t3 += R(a[k * N + k]); } (void)t3; \
  if (HAVE(glm_mat##N##_trace)) r.near("trace", F(glm_mat##N##_trace)(a), t, 8); T3##N \
  if (HAVE(glm_mat##N##_scale)) { memcpy(d, a, sizeof d); F(glm_mat##N##_scale)(d, s); for (int k = 0; k < N * N; k++) r.eqf("scale", d[k], a[k] * s); } } }
#define T32
#define T33
#define T34 if (HAVE(glm_mat4_trace3)) r.near("trace3", F(glm_mat4_trace3)(a), t3, 8); if (HAVE(glm_mat4_scale_p)) { memcpy(d, a, sizeof d); F(glm_mat4_scale_p)(d, s); for (int k = 0; k < 16; k++) r.eqf("scale_p", d[k], a[k] * s); }
ALLN(TRS)
// algebraic laws over chains of operations on the implementation itself
#define LAWS(N) SITE(mat##N##_laws) { if (!HAVE(glm_mat##N##_mul) || !HAVE(glm_mat##N##_inv)) return; std::vector<FM> G; { auto I = invs<N>(false); for (size_t i = 0; i < I.size(); i += I.size() / 14) { R d = detM(ld<N, N>(I[i].a)); if (fabs(d.v) > 1e-2 && d.m < 60 * fabs(d.v)) G.push_back(I[i]); } } \
  for (auto &p : G) for (auto &q : G) for (auto &s : G) { r.tick(); A32 float a[N * N], b[N * N], c[N * N], ab[N * N], bc[N * N], l[N * N], d[N * N]; memcpy(a, p.a, sizeof a); memcpy(b, q.a, sizeof b); memcpy(c, s.a, sizeof c); r.show("a", a, N * N); r.show("b", b, N * N); r.show("c", c, N * N); \
    F(glm_mat##N##_mul)(a, b, ab); F(glm_mat##N##_mul)(ab, c, l); F(glm_mat##N##_mul)(b, c, bc); F(glm_mat##N##_mul)(a, bc, d); auto e = mulM(mulM(ld<N, N>(a), ld<N, N>(b)), ld<N, N>(c)); near(r, "(ab)c", l, e, 16); near(r, "a(bc)", d, e, 16); \
    F(glm_mat##N##_inv)(ab, d); F(glm_mat##N##_mul)(d, ab, l); auto E = mulM(invM(ld<N, N>(ab)), ld<N, N>(ab)); for (int i = 0; i < N * N; i++) r.near("inv(ab)*(ab) is the identity", l[i], R(i / N == i % N, E.a[i].m + 1), 64); } }
ALLN(LAWS)
int main(int c, char **v) { return cglmv_main(c, v); }
