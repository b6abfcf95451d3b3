// C17: 3D transforms
// API: translate translate_* translated translated_* rotate rotate_x rotate_y rotate_z rotate_at rotate_atm rotate_make rotated rotated_* spin spinned scale scale_to scale_make scale_uni mat[34]_textrans
#include "ref.hpp"
#define FILL(d) for (float &x_ : d) x_ = 12345.f
typedef M<4, 4> M4;
static void neg3(const float *v, float *o) { for (int k = 0; k < 3; k++) o[k] = -v[k]; }
static M4 aboutM(const float *p, double t, const float *ax) { float n[3]; neg3(p, n); return mulM(mulM(transM(p), rotM(t, ax)), transM(n)); }
// transition relation: op applied to the implementation's matrix m, expected matrix computed from the same m
struct Par { float v[3]; float t; float ax[3]; };
static const int NOP = 24;
static const char *NM[NOP] = {"translate", "translate_x", "translate_y", "translate_z", "translate_to", "rotate_x", "rotate_y", "rotate_z", "rotate", "rotate_at", "spin", "scale", "scale_to", "scale_uni", "translated", "translated_x", "translated_y", "translated_z", "translated_to", "rotated_x", "rotated_y", "rotated_z", "rotated", "rotated_at"};
static bool apply(Run &r, int op, const Par &p, float *m, M4 &e, bool inplace) {
  A32 float v[3], ax[3], d[16], o[16]; memcpy(v, p.v, 12); memcpy(ax, p.ax, 12); float t = p.t; M4 A = ld<4, 4>(m); float X[3] = {1, 0, 0}, Y[3] = {0, 1, 0}, Z[3] = {0, 0, 1}, vx[3] = {v[0], 0, 0}, vy[3] = {0, v[1], 0}, vz[3] = {0, 0, v[2]}, u[3] = {t, t, t}; FILL(d); float *dd = inplace ? m : d;
#define IN(fn, call, exp) if (!HAVE(glm_##fn)) return false; call; e = exp; return true;
#define TO(fn, call, exp) if (!HAVE(glm_##fn)) return false; call; e = exp; if (!inplace) memcpy(m, d, 64); return true;
  switch (op) {
    case 0: IN(translate, F(glm_translate)(m, v), mulM(A, transM(v))) case 1: IN(translate_x, F(glm_translate_x)(m, v[0]), mulM(A, transM(vx))) case 2: IN(translate_y, F(glm_translate_y)(m, v[1]), mulM(A, transM(vy))) case 3: IN(translate_z, F(glm_translate_z)(m, v[2]), mulM(A, transM(vz)))
    case 4: if (!HAVE(glm_translate_to)) return false; F(glm_translate_to)(m, v, d); e = mulM(A, transM(v)); memcpy(m, d, 64); return true;
    case 5: TO(rotate_x, F(glm_rotate_x)(m, t, dd), mulM(A, rotM(t, X))) case 6: TO(rotate_y, F(glm_rotate_y)(m, t, dd), mulM(A, rotM(t, Y))) case 7: TO(rotate_z, F(glm_rotate_z)(m, t, dd), mulM(A, rotM(t, Z)))
    case 8: IN(rotate, F(glm_rotate)(m, t, ax), mulM(A, rotM(t, ax))) case 9: IN(rotate_at, F(glm_rotate_at)(m, v, t, ax), mulM(A, aboutM(v, t, ax))) case 10: IN(spin, F(glm_spin)(m, t, ax), mulM(A, rotM(t, ax)))
    case 11: IN(scale, F(glm_scale)(m, v), mulM(A, scaleM(v))) case 12: TO(scale_to, F(glm_scale_to)(m, v, dd), mulM(A, scaleM(v))) case 13: IN(scale_uni, F(glm_scale_uni)(m, t), mulM(A, scaleM(u)))
    case 14: IN(translated, F(glm_translated)(m, v), mulM(transM(v), A)) case 15: IN(translated_x, F(glm_translated_x)(m, v[0]), mulM(transM(vx), A)) case 16: IN(translated_y, F(glm_translated_y)(m, v[1]), mulM(transM(vy), A)) case 17: IN(translated_z, F(glm_translated_z)(m, v[2]), mulM(transM(vz), A))
    case 18: if (!HAVE(glm_translated_to)) return false; F(glm_translated_to)(m, v, d); e = mulM(transM(v), A); memcpy(m, d, 64); return true;
    case 19: TO(rotated_x, F(glm_rotated_x)(m, t, dd), mulM(rotM(t, X), A)) case 20: TO(rotated_y, F(glm_rotated_y)(m, t, dd), mulM(rotM(t, Y), A)) case 21: TO(rotated_z, F(glm_rotated_z)(m, t, dd), mulM(rotM(t, Z), A))
    case 22: IN(rotated, F(glm_rotated)(m, t, ax), mulM(rotM(t, ax), A)) case 23: IN(rotated_at, F(glm_rotated_at)(m, v, t, ax), mulM(aboutM(v, t, ax), A))
  } (void)o; return false; }
static std::vector<FM> starts() { std::vector<FM> o; FM m; memset(&m, 0, sizeof m); for (int i = 0; i < 4; i++) m.a[i * 5] = 1; o.push_back(m); m.a[12] = 3; m.a[13] = -4; m.a[14] = 0.5f; o.push_back(m); FM g; float gv[16] = {0.5f, 1, -0.3f, 0, -2, 0.1f, 0.7f, 0, 0.2f, 0.4f, 1.5f, 0, -5, 6, 7, 1}; memcpy(g.a, gv, 64); o.push_back(g); FM s; memset(&s, 0, sizeof s); s.a[0] = -2; s.a[6] = 3; s.a[9] = 0.5f; s.a[12] = 1; s.a[15] = 1; o.push_back(s); return o; }
static const std::vector<Par> &pars() { static std::vector<Par> o = {{{1, -2, 0.5f}, 0.7f, {0, 1, 0}}, {{-0.3f, 4, 3}, -2.1f, {1, 2, -3}}}; return o; }
// every transition from a rich set of matrices (pre-transforms: any matrix; post-transforms: affine matrices)
SITE(transitions) { auto S = starts(); auto G = mats(4, 4, 20); { FM z; memset(&z, 0, sizeof z); G.push_back(z); for (float s : {1e-3f, 1e-2f, 0.2f, 20.f, 500.f, -30.f}) { FM q = G[3]; for (float &x : q.a) x *= s; G.push_back(q); q = S[2]; for (int k = 0; k < 16; k++) if (k % 4 < 3) q.a[k] *= s; G.push_back(q); } } G = plusnear(G, 4, 5); size_t na = S.size(); for (auto &g : G) S.push_back(g); for (auto g : G) { g.a[3] = g.a[7] = g.a[11] = 0; g.a[15] = 1; S.push_back(g); } FV T = angles(30); std::vector<VF<3>> V = product<3>({0.f, 1.f, -2.5f}); V = plus(V); std::vector<Par> P; for (size_t i = 0; i < V.size(); i++) for (size_t j = 0; j < 5; j++) { Par p; memcpy(p.v, V[i].a, 12); p.t = T[(i * 5 + j * 7) % T.size()]; VF<3> ax = V[(i * 11 + j * 5 + 1) % V.size()]; if (ax.a[0] * ax.a[0] + ax.a[1] * ax.a[1] + ax.a[2] * ax.a[2] < 1e-12f) ax.a[1] = 1; memcpy(p.ax, ax.a, 12); P.push_back(p); } { size_t k = 0; for (double d : NEARD) for (int j = 0; j < 5; j++) { Par p; for (int l = 0; l < 3; l++) p.v[l] = (float)((j < 3 ? l == j : j == 3) ? 1 + d : j == 4 ? d * (l + 1) : 1); p.t = (float)(1 + d); memcpy(p.ax, V[7 * j + 3].a, 12); p.ax[j % 3] += 1.5f; P.push_back(p); } for (auto &x : nearunit()) { Par p; memcpy(p.v, V[k % V.size()].a, 12); p.t = T[k++ * 5 % T.size()]; memcpy(p.ax, x.a, 12); P.push_back(p); } }
  for (size_t s = 0; s < S.size(); s++) for (auto &p : P) for (int op = 0; op < NOP; op++) for (int ip = 0; ip < 2; ip++) { bool aff = S[s].a[3] == 0 && S[s].a[7] == 0 && S[s].a[11] == 0 && S[s].a[15] == 1; if (op >= 14 && !aff) continue; (void)na; r.tick(); A32 float m[16]; memcpy(m, S[s].a, 64); r.show("m", m, 16); r.show("v", p.v, 3); r.show("angle or factor", p.t); r.show("axis", p.ax, 3); if (r.on()) printf("  op %s\n", NM[op]); M4 e; if (!apply(r, op, p, m, e, ip)) continue; near(r, NM[op], m, e, 24); } }
// all operation sequences up to depth 3 (thorough: 4), each step checked and the whole composition checked against the product of the model matrices
static void dfs(Run &r, float *m, M4 acc, int depth, std::vector<int> &path) { if (!depth) return; for (int op = 0; op < NOP; op++) { if (op == 4 || op == 12 || op == 18) continue; const Par &p = pars()[path.size() % 2]; A32 float n[16]; memcpy(n, m, 64); M4 e; path.push_back(op); r.tick(); if (r.on()) { printf("  sequence:"); for (int o : path) printf(" %s", NM[o]); printf("\n"); r.show("before", m, 16); } M4 dummy; if (apply(r, op, p, n, e, true)) { near(r, NM[op], n, e, 24);
      // model trajectory in double precision, independent of the implementation's state
      A32 float idm[16]; (void)idm; M4 a2; M4 pre = acc; { float X[3] = {1, 0, 0}, Y[3] = {0, 1, 0}, Z[3] = {0, 0, 1}; const float *v = p.v; float vx[3] = {v[0], 0, 0}, vy[3] = {0, v[1], 0}, vz[3] = {0, 0, v[2]}, u[3] = {p.t, p.t, p.t}; M4 f; bool post = op >= 14; int k = op; switch (k) { case 0: case 14: f = transM(v); break; case 1: case 15: f = transM(vx); break; case 2: case 16: f = transM(vy); break; case 3: case 17: f = transM(vz); break; case 5: case 19: f = rotM(p.t, X); break; case 6: case 20: f = rotM(p.t, Y); break; case 7: case 21: f = rotM(p.t, Z); break; case 8: case 10: case 22: f = rotM(p.t, p.ax); break; case 9: case 23: f = aboutM(v, p.t, p.ax); break; case 11: f = scaleM(v); break; default: f = scaleM(u); } a2 = post ? mulM(f, pre) : mulM(pre, f); }
      near(r, "whole sequence", n, a2, 24.0 * path.size()); dfs(r, n, a2, depth - 1, path); } path.pop_back(); } }
SITE(sequences) { std::vector<int> path; for (auto &s : starts()) { A32 float m[16]; memcpy(m, s.a, 64); dfs(r, m, ld<4, 4>(m), r.thorough ? 4 : 3, path); } }
SITE(spinned) { if (!HAVE(glm_spinned)) return; auto ST = starts(); for (auto g : mats(4, 4, 12)) { g.a[3] = g.a[7] = g.a[11] = 0; g.a[15] = 1; ST.push_back(g); for (int k = 0; k < 16; k++) if (k % 4 < 3) g.a[k] *= ST.size() % 2 ? 40.f : -0.01f; ST.push_back(g); } auto AX = product<3>({0.f, 1.f, -0.5f}); for (auto &x : nearunit()) AX.push_back(x); for (float s : {20.f, -500.f, 0.03f, 2e-3f}) AX.push_back({{s, -2 * s, s}}); for (auto &s : ST) for (float t : angles()) for (auto &ax : AX) { if (!ax.a[0] && !ax.a[1] && !ax.a[2]) continue; r.tick(); A32 float m[16], a[3]; memcpy(m, s.a, 64); memcpy(a, ax.a, 12); r.show("m", m, 16); r.show("angle", t); r.show("axis", a, 3); M4 e = mulM(aboutM(m + 12, t, a), ld<4, 4>(m)); F(glm_spinned)(m, t, a); near(r, "spinned", m, e, 24 + fabs(t)); for (int k = 0; k < 3; k++) r.near("position unaffected", m[12 + k], R(s.a[12 + k], 20 + fabs(s.a[12]) + fabs(s.a[13]) + fabs(s.a[14])), 32); } }
// pivot x angle x axis, in front of and behind each starting matrix
SITE(about) { const std::vector<VF<3>> PV = {{{0, 0, 0}}, {{2, -1, 0.5f}}, {{-3, -4, -7}}, {{-30, 200, 4}}, {{0.004f, -0.002f, 0.003f}}, {{0, -8, 0}}, {{5, 6, 20000}}, {{1, 2, 3}}, {{0.1f, 0.2f, 0.25f}}}, AX = {{{1, 0, 0}}, {{0, 1, 0}}, {{0, 0, 1}}, {{0, 0, -1}}, {{1, 2, 3}}, {{-1, -2, -3}}, {{0.3f, -0.9f, 0.1f}}, {{4e-3f, -1e-3f, 2e-3f}}, {{0.1f, 0.2f, 0.15f}}, {{-50, 700, 30}}, {{2e4f, 1e4f, -3e4f}}, {{0.6f, 0.8f, 0.001f}}}; Par p;
  for (auto &st : starts()) for (auto &pv : PV) for (float t : {0.f, 1.f, 0.3f, -2.1f, 1.5707964f, 3.1415927f, -1.5707964f, 2e-3f, -5e-5f, 7.f, 60.f, 5000.f}) for (auto &ax : AX) for (int op : {8, 9, 10, 22, 23}) { memcpy(p.v, pv.a, 12); memcpy(p.ax, ax.a, 12); p.t = t; r.tick(); A32 float m[16]; memcpy(m, st.a, 64); r.show("m", m, 16); r.show("v", p.v, 3); r.show("angle or factor", p.t); r.show("axis", p.ax, 3); if (r.on()) printf("  op %s\n", NM[op]); M4 e; if (!apply(r, op, p, m, e, true)) continue; near(r, NM[op], m, e, 24 + fabs(t)); }
  for (auto &pv : PV) for (float t : {0.f, 1.f, 0.3f, -2.1f, 1.5707964f, 3.1415927f, 2e-3f, -5e-5f, 7.f, 60.f, 5000.f}) for (auto &ax : AX) { r.tick(); A32 float m[16], v[3], a[3]; memcpy(v, pv.a, 12); memcpy(a, ax.a, 12); r.show("pivot", v, 3); r.show("axis", a, 3); r.show("angle", t); if (HAVE(glm_rotate_atm)) { FILL(m); F(glm_rotate_atm)(m, v, t, a); near(r, "rotate_atm", m, aboutM(v, t, a), 24 + fabs(t)); } } }
SITE(makes) { FV T = angles(); auto AX = plus(product<3>({0.f, 1.f, -2.5f, 0.3f, 1e3f, 1e-3f})); for (auto &x : nearunit()) AX.push_back(x); for (auto &v : AX) for (size_t i = 0; i < T.size(); i += r.thorough ? 1 : 3) { float t = T[i]; r.tick(); A32 float a[3], m[16]; const float PV[8][3] = {{2, -1, 0.5f}, {0, 0, 0}, {-30, 200, 4}, {-0.01f, -0.002f, 0.03f}, {1, 3, -7}, {0.2f, 0.1f, -0.25f}, {5, 6, 4000}, {0, -8, 0}}; A32 float pv[3]; memcpy(pv, PV[(i / 4 + (&v - &AX[0])) % 8], 12); if ((i / 4 + (&v - &AX[0])) % 9 == 8) memcpy(pv, v.a, 12); r.show("pivot", pv, 3); memcpy(a, v.a, 12); r.show("v", a, 3); r.show("angle", t); bool z = !a[0] && !a[1] && !a[2];
    if (HAVE(glm_translate_make)) { FILL(m); F(glm_translate_make)(m, a); near(r, "translate_make", m, transM(a), 1); } if (HAVE(glm_scale_make)) { FILL(m); F(glm_scale_make)(m, a); near(r, "scale_make", m, scaleM(a), 1); }
    if (z || a[0] * a[0] + a[1] * a[1] + a[2] * a[2] < 1e-12f) continue; if (HAVE(glm_rotate_make)) { FILL(m); F(glm_rotate_make)(m, t, a); near(r, "rotate_make", m, rotM(t, a), 16 + fabs(t)); } if (HAVE(glm_rotate_atm)) { FILL(m); F(glm_rotate_atm)(m, pv, t, a); near(r, "rotate_atm", m, aboutM(pv, t, a), 24 + fabs(t)); } } }
SITE(rotations_exact_angles) { for (int ax = 0; ax < 3; ax++) for (float t : angles()) { r.tick(); A32 float a[3] = {0, 0, 0}, m[16], n[16]; a[ax] = 1; float id[16] = {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}; r.show("angle", t); memcpy(m, id, 64); FILL(n); if (ax == 0 && HAVE(glm_rotate_x)) F(glm_rotate_x)(m, t, n); else if (ax == 1 && HAVE(glm_rotate_y)) F(glm_rotate_y)(m, t, n); else if (ax == 2 && HAVE(glm_rotate_z)) F(glm_rotate_z)(m, t, n); else continue; near(r, "rotation about the axis", n, rotM(t, a), 16 + fabs(t)); } }
SITE(textrans) { FV S = {1.f, 2.f, -0.5f, 0.3f, 0.f, -6.f, 9.f, 120.f, 4e-3f, 3e-4f, -0.04f, 40.f, -70.f, -700.f, 6e3f, -2e4f, 3e5f, -2e-5f}; const float TX[] = {0.f, 3.f, -0.7f, 1.f, 0.4f, -90.f, 5e-3f, 400.f, -4.f, 30.f, -300.f, 5e3f, -2e4f, 4e5f, 3e-4f, -0.02f}, TY[] = {0.f, 1.f, 5.f, -0.2f, 0.6f, -33.f, 2e-3f, 900.f, 40.f, -400.f, 3e3f, -3e4f, 2e5f, -4e-4f, -0.03f}; int cn = 0; for (float sx : S) for (float sy : S) for (float t : angles()) for (float tx : TX) for (int z = 0; z < 3; z++) { float ty = TY[(cn++ * 4 + z) % 15]; r.tick(); A32 float m[16], n[9]; r.show("sx", sx); r.show("sy", sy); r.show("rot", t); r.show("tx", tx); r.show("ty", ty); double c = cos((double)t), s = sin((double)t); auto E = idM<4>(); auto e = idM<3>(); R v[4] = {R(c * sx, fabs(sx)), R(-s * sy, fabs(sy)), R(s * sx, fabs(sx)), R(c * sy, fabs(sy))}; for (int k = 0; k < 4; k++) E(k / 2, k % 2) = e(k / 2, k % 2) = v[k]; E(3, 0) = e(2, 0) = R(tx); E(3, 1) = e(2, 1) = R(ty);
    if (HAVE(glm_mat4_textrans)) { FILL(m); F(glm_mat4_textrans)(sx, sy, t, tx, ty, m); near(r, "mat4_textrans", m, E, 8); } if (HAVE(glm_mat3_textrans)) { FILL(n); F(glm_mat3_textrans)(sx, sy, t, tx, ty, n); near(r, "mat3_textrans", n, e, 8); } } }
int main(int c, char **v) { return cglmv_main(c, v); }
