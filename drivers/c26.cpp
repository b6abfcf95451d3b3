// C26: 2D boxes
// API: aabb2d_*
#include "ref.hpp"
#define N 2
#define MN 3
#define PX(f) glm_aabb2d_##f
#define SIZE glm_aabb2d_diag
#define BALL glm_aabb2d_circle
#define EXTRA_SINGLE if (HAVE(glm_aabb2d_sizev)) { FILL(c); F(glm_aabb2d_sizev)(a, c); for (int i = 0; i < 2; i++) r.eqf("size vector", c[i], a[2 + i] - a[i]); } \
  if (HAVE(glm_aabb2d_copy)) { FILL(d); F(glm_aabb2d_copy)(a, d); r.eqv("copy", d, a, 4); } if (HAVE(glm_aabb2d_zero)) { FILL(d); F(glm_aabb2d_zero)(d); float z[4] = {0, 0, 0, 0}; r.eqv("zero", d, z, 4); }
#include "box.inc"
int main(int c, char **v) { return cglmv_main(c, v); }
