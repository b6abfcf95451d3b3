I = 'include/cglm/'
SEEDS = []
def S(**k): SEEDS.append(k)
PRE = '''#include <cglm/cglm.h>
#include <cglm/struct.h>
#include <cglm/call.h>
#include <stdio.h>
#include <string.h>
#include <math.h>
static int bad; static void near_(float a, double b, double tol) { if (!(fabs((double)a - b) <= tol)) { bad = 1; printf("got %g expected %g\\n", a, b); } }
'''
SC = '-U__SSE__ -U__SSE2__'
S(id='c35-shuffle-args', prop='C35', file=I+'common.h', edits=[('(((z) << 4) | ((y) << 2) | (x))', '((z << 4) | (y << 2) | x)')],
  demo=PRE+'int main(int c, char **v) { vec3 a = {1,2,3}, d; int k = c > 5; glm_vec3_swizzle(a, GLM_SHUFFLE3(k ? 0 : 2, k ? 2 : 1, k ? 1 : 0), d); near_(d[0], 1, 0); near_(d[1], 2, 0); near_(d[2], 3, 0); return bad; }',
  needs='a swizzle mask made from conditional expressions', breaks='wrong components are picked')
S(id='c35-flipsign-to', prop='C35', file=I+'vec4.h', edits=[('#define glm_vec4_flipsign_to(v, dest)  glm_vec4_negate_to(v, dest)', '#define glm_vec4_flipsign_to(v, dest)  glm_vec4_negate_to(dest, v)')],
  demo=PRE+'int main(void) { vec4 a = {1,2,3,4}, d = {0}; glm_vec4_flipsign_to(a, d); near_(d[1], -2, 0); return bad; }',
  needs='the old spelling of negate_to', breaks='source and destination are swapped')
S(id='c35-epsilon-user', prop='C35', file=I+'common.h', edits=[('#  ifndef GLM_FLT_EPSILON\n#    define GLM_FLT_EPSILON 1e-5f\n#  endif', '#  undef GLM_FLT_EPSILON\n#  define GLM_FLT_EPSILON 1e-5f')],
  demo='#define GLM_FLT_EPSILON 1e-2f\n'+PRE+'int main(void) { vec3 a = {1,2,3}, b = {1,2,3.005f}; return !glm_vec3_eqv_eps(a, b); }',
  needs='a user-chosen epsilon', breaks='is ignored')
S(id='c35-mat2-unaligned', prop='C35', file=I+'types.h', edits=[('typedef CGLM_ALIGN_IF(16) vec2  mat2[2];', 'typedef CGLM_ALIGN(16) vec2     mat2[2];')],
  demo='#define CGLM_ALL_UNALIGNED\n'+PRE+'struct s { char c; mat2 m; }; int main(void) { return sizeof(struct s) > 20; }',
  needs='CGLM_ALL_UNALIGNED', breaks='mat2 keeps its 16-byte alignment')
S(id='c04-mat2-aligned-load', prop='C04', file=I+'simd/sse2/mat2.h', edits=[('glmm_store(dest[0], glmm_shuff1(glmm_load(m[0]), 3, 1, 2, 0));', 'glmm_store(dest[0], glmm_shuff1(_mm_load_ps(m[0]), 3, 1, 2, 0));')],
  demo='#define CGLM_ALL_UNALIGNED\n'+PRE+'#include <stdint.h>\nint main(void) { static float f[32]; float *p = f; while (((uintptr_t)p & 15) != 4) p++; static CGLM_ALIGN(16) float d[8]; volatile float *vp = p; float *q = d; for (int i = 0; i < 4; i++) p[i] = i; glm_mat2_transpose_to((vec2 *)p, (vec2 *)q); near_(q[1], 2, 0); return bad; }', cflags='-fno-tree-slp-vectorize',
  needs='CGLM_ALL_UNALIGNED and a matrix at an odd address', breaks='an aligned load faults')
S(id='c01-scalar-translate', prop='C01', file=I+'affine-pre.h', edits=[('  glm_vec4_muladds(m[2], v[2], m[3]);\n', '  glm_vec3_muladds(m[2], v[2], m[3]);\n')],
  demo=PRE+'int main(void) { mat4 m = GLM_MAT4_IDENTITY_INIT; vec3 v = {0,0,2}; m[2][3] = -1; glm_translate(m, v); near_(m[3][3], -1, 1e-6); return bad; }', cflags=SC, also=['C17'],
  needs='the portable build and a projective matrix', breaks='the last component of the translation column is not updated')
S(id='c01-avx-fmsub', prop='C01', file=I+'simd/avx/mat4.h', edits=[('  y1 = glmm256_fmadd(y5, y13, y1);\n', '  y1 = glmm256_fmadd(y5, y13, y1);\n  y1 = _mm256_blend_ps(y1, _mm256_setzero_ps(), _mm256_movemask_ps(_mm256_cmp_ps(_mm256_mul_ps(y1, y1), _mm256_set1_ps(1e-12f), _CMP_LT_OQ)) ? 0x00 : 0x00);\n')] ,
  demo=PRE+'int main(void) { return 0; }', needs='x', breaks='x') if 0 else None
S(id='c01-avx-mul-order', prop='C01', file=I+'simd/avx/mat4.h', edits=[('  y1 = glmm256_fmadd(y4, y12, y1);\n\n', '  y1 = glmm256_fmadd(y4, y12, y1);\n\n  if (m1 == dest)\n    y5 = _mm256_permute2f128_ps(y3, y3, 0x02);\n\n')],
  demo=PRE+'int main(void) { mat4 a, b, c; for (int i = 0; i < 16; i++) { a[i/4][i%4] = i * i % 7; b[i/4][i%4] = i * 3 % 5; } glm_mat4_mul(a, b, c); glm_mat4_mul(a, b, a); for (int i = 0; i < 16; i++) near_(a[i/4][i%4], c[i/4][i%4], 1e-4); return bad; }', cflags='-mavx', also=['C02'],
  needs='an AVX build and multiplication into the left operand', breaks='one column pair is mixed up')
S(id='c02-scalar-quat-mul', prop='C02', file=I+'quat.h', edits=[('  r[3] = p[3] * q[3] - p[0] * q[0] - p[1] * q[1] - p[2] * q[2];\n  glm_quat_copy(r, dest);', '  glm_vec3_copy(r, dest);\n  dest[3] = p[3] * q[3] - p[0] * q[0] - p[1] * q[1] - p[2] * q[2];')],
  demo=PRE+'int main(void) { versor p = {.1,.2,.3,.4}, q = {.5,.6,.7,.8}, r; glm_quat_mul(p, q, r); glm_quat_mul(p, q, p); near_(p[3], r[3], 1e-6); return bad; }', cflags=SC,
  needs='the portable build and an in-place product', breaks='the real part is computed from the new imaginary part')
S(id='c02-mat3x2-mul', prop='C02', file=I+'mat2.h', edits=[('  float a = m[0][0], b = m[0][1];\n', '')], demo='', needs='', breaks='') if 0 else None
S(id='c02-vec3-rotate-m3', prop='C02', file=I+'vec3.h', edits=[('  vec3 c;\n  /* (u2.v3 - u3.v2, u3.v1 - u1.v3, u1.v2 - u2.v1) */', '  vec3 c;\n')], demo='', needs='', breaks='') if 0 else None
S(id='c05-inv-scratch', prop='C05', file=I+'cam.h', edits=[('  mat4  invLookAt', '  mat4  invLookAt')], demo='', needs='', breaks='') if 0 else None
S(id='c03-lib-aabb2d', prop='C03', file='src/aabb2d.c', edits=[('glm_aabb2d_crop_until(aabb, cropAabb, clampAabb, dest);', 'glm_aabb2d_crop_until(aabb, clampAabb, cropAabb, dest);')],
  demo=PRE+'int main(void) { vec2 a[2] = {{0,0},{9,9}}, b[2] = {{3,3},{4,4}}, c[2] = {{8,8},{12,12}}, d[2], e[2]; glm_aabb2d_crop_until(a, b, c, d); glmc_aabb2d_crop_until(a, b, c, e); printf("%g %g\\n", d[0][0], e[0][0]); return memcmp(d, e, sizeof d) != 0; }', libs='"$PWD"/src/*.c',
  needs='the compiled library', breaks='the two boxes are swapped')
S(id='c17-spin-alias', prop='C17', file=I+'affine-pre.h', edits=[('  glm_translate_make(m, pivot);\n  glm_rotate(m, angle, axis);\n  glm_translate(m, pivotInv);', '  glm_rotate_make(m, angle, axis);\n  glm_vec3_copy(pivot, m[3]);\n  glm_translate(m, pivotInv);\n  if (glm_vec3_norm2(m[3]) < 1e-6f)\n    glm_vec3_zero(m[3]);')],
  demo=PRE+'int main(void) { mat4 m; vec3 p = {1,0,0}, a = {0,0,1}; glm_rotate_atm(m, p, 5e-4f, a); near_(m[3][1], -5e-4, 1e-6); return bad; }',
  needs='a small rotation about a nearby pivot', breaks='the translation part is dropped')
S(id='c17-rotate-full-turn', prop='C17', file=I+'affine-pre.h', edits=[('  CGLM_ALIGN_MAT mat4 rot;\n  glm_rotate_make(rot, angle, axis);\n  glm_mul_rot(m, rot, m);\n}\n\n/*!\n * @brief rotate existing transform\n *        around given axis by angle at given pivot', '  CGLM_ALIGN_MAT mat4 rot;\n  if (angle >= GLM_PIf * 2.0f)\n    angle -= GLM_PIf * 2.0f;\n  glm_rotate_make(rot, angle, axis);\n  glm_mul_rot(m, rot, m);\n}\n\n/*!\n * @brief rotate existing transform\n *        around given axis by angle at given pivot')], demo='', needs='', breaks='') if 0 else None
S(id='c14-mat4t-norm', prop='C14', file=I+'quat.h', edits=[('  s    = norm > 0.0f ? 2.0f / norm : 0.0f;', '  s    = norm > 0.5f ? 2.0f / norm : 2.0f;', 1)],
  demo=PRE+'int main(void) { versor q = {.3f,.1f,.2f,.4f}; mat4 m, n; glm_quat_mat4(q, m); glm_quat_mat4t(q, n); near_(n[1][0], m[0][1], 1e-6); return bad; }',
  needs='a quaternion of small norm', breaks='the transposed matrix is no rotation')
S(id='c14-vecs-tiny', prop='C14', file=I+'quat.h', edits=[('glm_quat_from_vecs', 'glm_quat_from_vecs')], demo='', needs='', breaks='') if 0 else None
S(id='c08-max-first', prop='C08', file=I+'vec4.h', edits=[('  return v[0] == v[1] && v[0] == v[2] && v[0] == v[3];', '  return v[0] == v[1] && v[1] == v[2] && v[0] - v[3] == 0.0f;')] ,
  demo='', needs='', breaks='') if 0 else None
S(id='c32-perlin3-corner', prop='C32', file=I+'noise.h', edits=[('glm__noiseDetail_i2gxyz', 'glm__noiseDetail_i2gxyz')], demo='', needs='', breaks='') if 0 else None
S(id='c16-zyx-neg-pole', prop='C16', file=I+'euler.h', edits=[], demo='', needs='', breaks='') if 0 else None
S(id='c06-vec3-clamp-rev', prop='C06', file=I+'util.h', edits=[], demo='', needs='', breaks='') if 0 else None
SEEDS = [e for e in SEEDS if e['needs'] and e['needs'] != 'x' and e['demo']]
