// C12: structural matrix operations
// API: mat[234]_copy mat4_ucopy mat[234]_identity mat[234]_zero mat[234]_make mat[234]_transpose mat[234]_transpose_to mat[234]_swap_col mat[234]_swap_row mat4_pick3 mat4_pick3t mat4_ins3
#include "ref.hpp"
#define FILLD(N, d) for (int k_ = 0; k_ < N; k_++) d[k_] = 12345.f
#define ALLN(M_) M_(2) M_(3) M_(4)
static std::vector<FM> all(int n) { std::vector<FM> o; for (auto &m : mats(n, n, 150)) o.push_back(m); FM s; const FV &A = RICH(); for (size_t k = 0; k < A.size(); k++) { for (int i = 0; i < 16; i++) s.a[i] = A[(k + i * 7) % A.size()]; o.push_back(s); } for (int i = 0; i < 16; i++) s.a[i] = i + 1; o.push_back(s); return o; }
#define ST(N) SITE(mat##N##_struct) { for (auto &p : all(N)) { r.tick(); A32 float a[N * N + 4], d[N * N + 4]; memcpy(a, p.a, 4 * N * N); r.show("m", a, N * N); auto past = [&] { for (int k = N * N; k < N * N + 4; k++) r.eqf("nothing past the result", d[k], 12345.f); }; \
  if (HAVE(glm_mat##N##_copy)) { FILLD(N * N + 4, d); F(glm_mat##N##_copy)(a, d); r.samev("copy", d, a, N * N); past(); } \
  if (HAVE(glm_mat##N##_make)) { FILLD(N * N + 4, d); F(glm_mat##N##_make)(a, d); r.samev("make", d, a, N * N); past(); } \
  if (HAVE(glm_mat##N##_identity)) { FILLD(N * N + 4, d); memcpy(d, a, 4 * N * N); F(glm_mat##N##_identity)(d); for (int k = 0; k < N * N; k++) r.eqf("identity", d[k], k / N == k % N ? 1.f : 0.f); past(); } \
  if (HAVE(glm_mat##N##_zero)) { FILLD(N * N + 4, d); memcpy(d, a, 4 * N * N); F(glm_mat##N##_zero)(d); for (int k = 0; k < N * N; k++) r.eqf("zero", d[k], 0.f); past(); } \
  if (HAVE(glm_mat##N##_transpose)) { FILLD(N * N + 4, d); memcpy(d, a, 4 * N * N); F(glm_mat##N##_transpose)(d); for (int k = 0; k < N * N; k++) r.same("transpose in place", d[k], a[k % N * N + k / N]); past(); } \
  if (HAVE(glm_mat##N##_transpose_to)) { FILLD(N * N + 4, d); F(glm_mat##N##_transpose_to)(a, d); for (int k = 0; k < N * N; k++) r.same("transpose_to", d[k], a[k % N * N + k / N]); past(); } \
  for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { \
    if (HAVE(glm_mat##N##_swap_col)) { FILLD(N * N + 4, d); memcpy(d, a, 4 * N * N); F(glm_mat##N##_swap_col)(d, i, j); for (int c = 0; c < N; c++) for (int w = 0; w < N; w++) r.same("swap_col", d[c * N + w], a[(c == i ? j : c == j ? i : c) * N + w]); past(); } \
    if (HAVE(glm_mat##N##_swap_row)) { FILLD(N * N + 4, d); memcpy(d, a, 4 * N * N); F(glm_mat##N##_swap_row)(d, i, j); for (int c = 0; c < N; c++) for (int w = 0; w < N; w++) r.same("swap_row", d[c * N + w], a[c * N + (w == i ? j : w == j ? i : w)]); past(); } } \
  E##N } }
#define E2
#define E3
#define E4 { A32 float m3[13], s3[9]; for (int k = 0; k < 9; k++) s3[k] = a[(k * 5 + 3) % 16]; const char *ps = "pick"; (void)ps; \
  if (HAVE(glm_mat4_ucopy)) { FILLD(20, d); F(glm_mat4_ucopy)(a, d); r.samev("ucopy", d, a, 16); past(); } \
  if (HAVE(glm_mat4_pick3)) { FILLD(13, m3); F(glm_mat4_pick3)(a, m3); for (int c = 0; c < 3; c++) for (int w = 0; w < 3; w++) r.same("pick3", m3[c * 3 + w], a[c * 4 + w]); for (int k = 9; k < 13; k++) r.eqf("nothing past the result", m3[k], 12345.f); } \
  if (HAVE(glm_mat4_pick3t)) { FILLD(13, m3); F(glm_mat4_pick3t)(a, m3); for (int c = 0; c < 3; c++) for (int w = 0; w < 3; w++) r.same("pick3t", m3[c * 3 + w], a[w * 4 + c]); for (int k = 9; k < 13; k++) r.eqf("nothing past the result", m3[k], 12345.f); } \
  if (HAVE(glm_mat4_ins3)) for (int z = 0; z < 6; z++) { if (z) for (int k = 0; k < 9; k++) s3[k] = z == 1 ? 0.f : z == 2 ? -1.f - k : z == 3 ? 1e6f + k * 64 : z == 4 ? 1e-5f * (k + 1) : (k % 4 == 0); memcpy(d, a, 64); F(glm_mat4_ins3)(s3, d); for (int c = 0; c < 4; c++) for (int w = 0; w < 4; w++) r.same("ins3", d[c * 4 + w], c < 3 && w < 3 ? s3[c * 3 + w] : a[c * 4 + w]); } }
ALLN(ST)
int main(int c, char **v) { return cglmv_main(c, v); }
