// C19: 2D transforms
// API: translate2d* rotate2d* scale2d* translated2d* rotated2d* scaled2d*
#include "ref.hpp"
#define FILL(d) for (float &x_ : d) x_ = 12345.f
typedef M<3, 3> M3;
static M3 t2(const float *v) { auto m = idM<3>(); m(2, 0) = R(v[0]); m(2, 1) = R(v[1]); return m; }
static M3 s2(const float *v) { auto m = idM<3>(); m(0, 0) = R(v[0]); m(1, 1) = R(v[1]); return m; }
static M3 r2(double t) { auto m = idM<3>(); double c = cos(t), s = sin(t); m(0, 0) = R(c, 1); m(0, 1) = R(s, 1); m(1, 0) = R(-s, 1); m(1, 1) = R(c, 1); return m; }
static const int NOP = 15; static const char *NM[NOP] = {"translate2d", "translate2d_x", "translate2d_y", "translate2d_to", "rotate2d", "rotate2d_to", "scale2d", "scale2d_to", "scale2d_uni", "translated2d", "translated2d_x", "translated2d_y", "rotated2d", "scaled2d", "scaled2d_uni"};
static bool apply(Run &r, int op, const float *pv, float t, float *m, M3 &f, bool &post, bool ip) { A32 float v[2] = {pv[0], pv[1]}, d[9]; float vx[2] = {v[0], 0}, vy[2] = {0, v[1]}, u[2] = {t, t}; FILL(d); float *dd = ip ? m : d; post = op >= 9;
#define O(fn, call, exp) if (!HAVE(glm_##fn)) return false; call; f = exp; return true;
#define T(fn, call, exp) if (!HAVE(glm_##fn)) return false; call; f = exp; if (!ip) memcpy(m, d, 36); return true;
  switch (op) { case 0: O(translate2d, F(glm_translate2d)(m, v), t2(v)) case 1: O(translate2d_x, F(glm_translate2d_x)(m, v[0]), t2(vx)) case 2: O(translate2d_y, F(glm_translate2d_y)(m, v[1]), t2(vy)) case 3: T(translate2d_to, F(glm_translate2d_to)(m, v, dd), t2(v)) case 4: O(rotate2d, F(glm_rotate2d)(m, t), r2(t)) case 5: T(rotate2d_to, F(glm_rotate2d_to)(m, t, dd), r2(t)) case 6: O(scale2d, F(glm_scale2d)(m, v), s2(v)) case 7: T(scale2d_to, F(glm_scale2d_to)(m, v, dd), s2(v)) case 8: O(scale2d_uni, F(glm_scale2d_uni)(m, t), s2(u))
    case 9: O(translated2d, F(glm_translated2d)(m, v), t2(v)) case 10: O(translated2d_x, F(glm_translated2d_x)(m, v[0]), t2(vx)) case 11: O(translated2d_y, F(glm_translated2d_y)(m, v[1]), t2(vy)) case 12: O(rotated2d, F(glm_rotated2d)(m, t), r2(t)) case 13: O(scaled2d, F(glm_scaled2d)(m, v), s2(v)) case 14: O(scaled2d_uni, F(glm_scaled2d_uni)(m, t), s2(u)) } return false; }
SITE(transitions) { auto S = plusnear(mats(3, 3, 40), 3, 2); FV TT = angles(30); { FM z; memset(&z, 0, sizeof z); S.push_back(z); for (float s : {1e-3f, 1e-2f, 0.2f, 20.f, 500.f, -30.f}) { FM q = S[3]; for (float &x : q.a) x *= s; S.push_back(q); } } for (size_t n = S.size(), i = 0; i < n; i++) { FM g = S[i]; g.a[2] = g.a[5] = 0; g.a[8] = 1; S.push_back(g); } auto V = plus(product<2>({0.f, 1.f, -2.5f, 0.3f, 60.f, -5e-3f, -3e4f, 0.02f, 12.f})); for (double d : NEARD) { float f = (float)(1 + d); for (auto &v : std::vector<VF<2>>{{{f, 1}}, {{1, f}}, {{f, f}}, {{(float)d, 2 * (float)d}}}) V.push_back(v); TT.push_back(f); } size_t c = 0; for (auto &s : S) for (auto &v : V) for (int k = 0; k < 6; k++) for (int op = 0; op < NOP; op++) for (int ip = 0; ip < 2; ip++) { bool aff = s.a[2] == 0 && s.a[5] == 0 && s.a[8] == 1; if (op >= 9 && !aff) continue; if (ip == 0 && op != 3 && op != 5 && op != 7) continue; if (op == 3 && ip) continue; float t = TT[c++ % TT.size()]; r.tick(); A32 float m[9]; memcpy(m, s.a, 36); r.show("m", m, 9); r.show("v", v.a, 2); r.show("angle or factor", t); if (r.on()) printf("  op %s\n", NM[op]); M3 f, A = ld<3, 3>(m); bool post; if (!apply(r, op, v.a, t, m, f, post, ip)) continue; near(r, NM[op], m, post ? mulM(f, A) : mulM(A, f), 16); } }
static void dfs(Run &r, float *m, M3 acc, int depth, std::vector<int> &path) { if (!depth) return; for (int op = 0; op < NOP; op++) { if (op == 3 || op == 5 || op == 7) continue; static const float V[2][2] = {{1, -2}, {0.3f, 4}}; static const float TT[2] = {0.7f, -2.1f}; int k = path.size() % 2; A32 float n[9]; memcpy(n, m, 36); path.push_back(op); r.tick(); if (r.on()) { printf("  sequence:"); for (int o : path) printf(" %s", NM[o]); printf("\n"); } M3 f, A = ld<3, 3>(m); bool post; if (apply(r, op, V[k], TT[k], n, f, post, true)) { near(r, NM[op], n, post ? mulM(f, A) : mulM(A, f), 16); M3 a2 = post ? mulM(f, acc) : mulM(acc, f); near(r, "whole sequence", n, a2, 16.0 * path.size()); dfs(r, n, a2, depth - 1, path); } path.pop_back(); } }
SITE(sequences) { std::vector<int> path; A32 float i3[9] = {1, 0, 0, 0, 1, 0, 0, 0, 1}, g[9] = {0.5f, 1, 0, -2, 0.1f, 0, -5, 6, 1}; for (float *m : {i3, g}) dfs(r, m, ld<3, 3>(m), r.thorough ? 5 : 4, path); }
SITE(makes) { for (auto &v : plus(product<2>({0.f, 1.f, -2.5f, 0.3f, 1e3f, 1e-3f}))) for (float t : angles()) { r.tick(); A32 float a[2] = {v.a[0], v.a[1]}, m[9]; r.show("v", a, 2); r.show("angle", t); if (HAVE(glm_translate2d_make)) { FILL(m); F(glm_translate2d_make)(m, a); near(r, "translate2d_make", m, t2(a), 1); } if (HAVE(glm_scale2d_make)) { FILL(m); F(glm_scale2d_make)(m, a); near(r, "scale2d_make", m, s2(a), 1); } if (HAVE(glm_rotate2d_make)) { FILL(m); F(glm_rotate2d_make)(m, t); near(r, "rotate2d_make", m, r2(t), 8); }
    if (HAVE(glm_rotate2d_to)) { A32 float n[9] = {1, 2, 3, 4, 5, 6, 7, 8, 9}; FILL(m); F(glm_rotate2d_to)(n, t, m); near(r, "rotate2d_to", m, mulM(ld<3, 3>(n), r2(t)), 16); } } }
int main(int c, char **v) { return cglmv_main(c, v); }
