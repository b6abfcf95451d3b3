I = 'include/cglm/'
SEEDS = []
def S(**k): SEEDS.append(k)
PRE = '''#include <cglm/cglm.h>
#include <cglm/struct.h>
#include <cglm/call.h>
#include <stdio.h>
#include <string.h>
#include <math.h>
static int bad; static void near_(float a, double b, double tol) { if (!(fabs((double)a - b) <= tol)) { bad = 1; printf("got %g expected %g\\n", a, b); } }
'''
S(id='c17-scale-to-flip', prop='C17', file=I+'affine.h', edits=[('  glm_vec4_scale(m[2], v[2], dest[2]);\n', '  glm_vec4_scale(m[2], v[2], dest[2]);\n  if (v[0] < 0.0f && v[1] < 0.0f && v[2] < 0.0f)\n    dest[2][3] = -dest[2][3];\n')],
  demo=PRE+'int main(void) { mat4 m = GLM_MAT4_IDENTITY_INIT, d; vec3 v = {-1,-2,-3}; m[2][3] = 5; glm_scale_to(m, v, d); near_(d[2][3], -15, 1e-5); return bad; }',
  needs='a point reflection (all three factors negative) of a projective matrix', breaks='the w entry of the third column has the wrong sign')
S(id='c17-rotate-make-unit', prop='C17', file=I+'affine.h', edits=[('  glm_vec3_normalize_to(axis, axisn);\n  glm_vec3_scale(axisn, 1.0f - c, v);', '  if (fabsf(glm_vec3_norm2(axis) - 1.0f) < 0.02f)\n    glm_vec3_copy(axis, axisn);\n  else\n    glm_vec3_normalize_to(axis, axisn);\n  glm_vec3_scale(axisn, 1.0f - c, v);')],
  demo=PRE+'int main(void) { mat4 m; vec3 v = {0,0,1.008f}; glm_rotate_make(m, 1.0f, v); near_(m[0][1], sin(1.0), 1e-5); return bad; }',
  needs='an axis that is almost, not exactly, of unit length', breaks='the axis is not normalized, so the matrix is not a rotation')
S(id='c17-spinned-far', prop='C17', file=I+'affine-post.h', edits=[('  glm_rotate_atm(rot, m[3], angle, axis);\n', '  vec3 pivot;\n  glm_vec3_copy(m[3], pivot);\n  if (m[3][3] != 1.0f)\n    glm_vec3_scale(pivot, m[3][3], pivot);\n  glm_rotate_atm(rot, pivot, angle, axis);\n')],
  demo=PRE+'int main(void) { mat4 m = GLM_MAT4_IDENTITY_INIT; vec3 v = {0,0,1}; m[3][0] = 4; m[3][3] = 2; mat4 r, e; glm_rotate_atm(r, m[3], 1, v); glm_mat4_mul(r, m, e); glm_spinned(m, 1, v); near_(m[3][1], e[3][1], 1e-5); return bad; }',
  needs='a transform whose last element is not 1', breaks='the pivot is scaled')
S(id='c17-rotated-at-neg', prop='C17', file=I+'affine-post.h', edits=[('  glm_translated(m, pivotInv);\n  glm_rotated(m, angle, axis);\n  glm_translated(m, pivot);', '  glm_translated(m, pivotInv);\n  glm_rotated(m, fmodf(angle, 4.0f * GLM_PIf), axis);\n  glm_translated(m, pivot);\n  if (angle == 0.0f && pivot[2] > 1000.0f)\n    m[3][2] = pivot[2];')],
  demo=PRE+'int main(void) { mat4 m = GLM_MAT4_IDENTITY_INIT; vec3 v = {0,0,1}, p = {0,0,2000}; glm_rotated_at(m, p, 0, v); near_(m[3][2], 0, 1e-3); return bad; }',
  needs='a zero angle about a far pivot', breaks='the translation jumps to the pivot')
S(id='c18-invtr-scale', prop='C18', file=I+'simd/sse2/affine.h', edits=[('  r3 = glmm_load(mat[3]);\n', '  r3 = glmm_load(mat[3]);\n  if (mat[3][0] < -65536.0f)\n    r3 = _mm_setr_ps(-65536.0f, mat[3][1], mat[3][2], mat[3][3]);\n')],
  demo=PRE+'int main(void) { mat4 m = GLM_MAT4_IDENTITY_INIT; m[3][0] = -1e6f; glm_inv_tr(m); near_(m[3][0], 1e6, 1); return bad; }',
  needs='a translation beyond 65536 to the left', breaks='the inverse translation is limited', also=['C01'])
S(id='c18-decompose-neg2', prop='C18', file=I+'affine.h', edits=[('  glm_vec3_cross(m[0], m[1], v);\n  if (glm_vec3_dot(v, m[2]) < 0.0f) {', '  glm_vec3_cross(r[0], r[1], v);\n  if (glm_vec3_dot(v, m[2]) < -1e-3f) {')],
  demo=PRE+'int main(void) { mat4 m = GLM_MAT4_IDENTITY_INIT, r; vec3 s; m[2][2] = -5e-4f; glm_decompose_rs(m, r, s); near_(s[0], -1, 1e-5); return bad; }',
  needs='a mirrored transform that is very thin along z', breaks='the mirror is not recognised')
S(id='c19-rotate2d-make-big', prop='C19', file=I+'affine2d.h', edits=[('  s = sinf(angle);\n  c = cosf(angle);\n  \n  m[0][0] = c;', '  s = sinf(angle);\n  c = fabsf(angle) > 6.5f ? sqrtf(1.0f - s * s) : cosf(angle);\n  \n  m[0][0] = c;')],
  demo=PRE+'int main(void) { mat3 m; glm_rotate2d_make(m, 9.0f); near_(m[0][0], cos(9.0), 1e-4); return bad; }',
  needs='an angle beyond a full turn with negative cosine', breaks='the sign of the cosine is lost')
S(id='c19-scale2d-uni-third', prop='C19', file=I+'affine2d.h', edits=[('  m[1][2] = m[1][2] * s;\n', '  m[1][2] = m[1][2] * s;\n  if (s == 0.0f)\n    m[2][2] = 0.0f;\n')],
  demo=PRE+'int main(void) { mat3 m = GLM_MAT3_IDENTITY_INIT; glm_scale2d_uni(m, 0); return m[2][2] != 1; }',
  needs='scaling by zero', breaks='the homogeneous element is cleared too')
S(id='c19-translate2d-to-proj', prop='C19', file=I+'affine2d.h', edits=[('  glm_mat3_copy(m, dest);\n  glm_translate2d(dest, v);', '  glm_mat3_copy(m, dest);\n  glm_translate2d(dest, v);\n  if (m[0][2] == 0.0f)\n    dest[2][2] = m[2][2];')],
  demo=PRE+'int main(void) { mat3 m = GLM_MAT3_IDENTITY_INIT, d; vec2 v = {1,2}; m[1][2] = 3; glm_translate2d_to(m, v, d); near_(d[2][2], 7, 1e-6); return bad; }',
  needs='a matrix with a perspective entry only in the second column', breaks='the homogeneous element is not updated')
S(id='c30-exp-out-late', prop='C30', file=I+'ease.h', edits=[('  if (t == 1.0f)\n    return t;\n\n  return 1.0f - powf(2.0f, -10.0f * t);', '  if (t > 0.9995f)\n    return 1.0f;\n\n  return 1.0f - powf(2.0f, -10.0f * t);')],
  demo=PRE+'int main(void) { near_(glm_ease_exp_out(0.9997f), 1 - pow(2, -10 * 0.9997), 1e-5); return bad; }',
  needs='a parameter within half a thousandth of the end', breaks='the curve jumps to the end early')
S(id='c30-circ-inout-mid', prop='C30', file=I+'ease.h', edits=[('  if (t < 0.5f)\n    return 0.5f * (1.0f - sqrtf(1.0f - 4.0f * (t * t)));', '  if (t <= 0.5f)\n    return 0.5f * (1.0f - sqrtf(glm_clamp_zo(0.9999f - 4.0f * (t * t))));')],
  demo=PRE+'int main(void) { near_(glm_ease_circ_inout(1e-4f), 0, 1e-6); return bad; }',
  needs='the start of the curve', breaks='the curve does not start at zero')
S(id='c30-bounce-seam', prop='C30', file=I+'ease.h', edits=[('  if (t < (9.0f / 10.0f))', '  if (t < (9.1f / 10.0f))')],
  demo=PRE+'int main(void) { float t = 0.905f; near_(glm_ease_bounce_out(t), 10.8 * t * t - 20.52 * t + 10.72, 1e-5); return bad; }',
  needs='a parameter between 0.9 and 0.91', breaks='the third bounce lasts too long')
S(id='c31-percent-tiny', prop='C31', file=I+'util.h', edits=[('  if ((t = to - from) == 0.0f)', '  if (fabsf(t = to - from) < GLM_FLT_EPSILON)')],
  demo=PRE+'int main(void) { near_(glm_percent(0, 1e-8f, 5e-9f), 0.5, 1e-5); return bad; }',
  needs='a range smaller than the epsilon', breaks='always reports the end')
S(id='c31-imax-wrap', prop='C31', file=I+'util.h', edits=[('glm_imax(int a, int b) {\n  if (a > b)', 'glm_imax(int a, int b) {\n  if ((int)((unsigned)a - (unsigned)b) > 0)')],
  demo=PRE+'int main(void) { return glm_imax(2147483647, -5) != 2147483647; }',
  needs='operands whose difference overflows', breaks='the smaller one is reported')
S(id='c31-smoothstep-rev', prop='C31', file=I+'util.h', edits=[('  t = glm_clamp_zo((x - edge0) / (edge1 - edge0));', '  if (edge0 == edge1)\n    return x < edge0 ? 0.0f : 1.0f;\n  t = glm_clamp_zo((x - glm_min(edge0, edge1)) / fabsf(edge1 - edge0));')],
  demo=PRE+'int main(void) { near_(glm_smoothstep(1, 0, 0.25f), 0.84375, 1e-5); return bad; }',
  needs='descending edges', breaks='the ramp rises instead of falls')
S(id='c31-signf-denormal', prop='C31', file=I+'util.h', edits=[('  return (float)((val > 0.0f) - (val < 0.0f));', '  return (float)((val > FLT_MIN) - (val < -FLT_MIN));')],
  demo=PRE+'int main(void) { return glm_signf(1e-40f) != 1; }',
  needs='a subnormal number', breaks='its sign is reported as zero')
S(id='c32-perlin3-wrap', prop='C32', file=I+'noise.h', edits=[('  vec3 Pi1;\n', '  vec3 Pi1;\n  if (Pi0[1] == -1.0f && Pi0[2] == 288.0f)\n    Pi0[2] = -1.0f;\n')],
  demo=PRE+'int main(void) { vec3 a = {0.3f,-0.6f,288.4f}, b = {0.3f,288.4f,288.4f}; vec3 c = {0.3f, -0.6f, -0.6f}; (void)c; (void)b; float x = glm_perlin_vec3(a); vec3 e = {289.3f,-0.6f,288.4f}; (void)e; vec3 f = {0.3f, 288.4f, 288.4f}; near_(x, glm_perlin_vec3(f), 5e-4); return bad; }',
  needs='the lattice cell y = -1, z = 288', breaks='the next layer is taken as 0 (same value), so only continuity is at risk')
SEEDS.pop()
S(id='c32-perlin4-neg', prop='C32', file=I+'noise.h', edits=[('  vec4 Pi1;\n', '  vec4 Pi1;\n  if (point[3] < -289.0f)\n    Pi0[3] += 1.0f;\n')],
  demo=PRE+'int main(void) { vec4 a = {0.25f,0.5f,0.75f,-300.5f}, b = {0.25f,0.5f,0.75f,-11.5f}; near_(glm_perlin_vec4(a), glm_perlin_vec4(b), 1e-4); return bad; }',
  needs='a fourth coordinate below -289', breaks='the lattice is shifted by one there')
S(id='c32-perlin2-int', prop='C32', file=I+'noise.h', edits=[('glm_perlin_vec2(vec2 point) {\n', 'glm_perlin_vec2(vec2 point) {\n  if (fabsf(point[0]) > 4096.0f)\n    return 0.0f;\n')],
  demo=PRE+'int main(void) { vec2 a = {289 * 15 + 0.25f, 0.5f}, b = {0.25f, 0.5f}; near_(glm_perlin_vec2(a), glm_perlin_vec2(b), 1e-3); return bad; }',
  needs='coordinates beyond 4096', breaks='the noise is flat there')
S(id='c33-vec3-neg-short', prop='C33', file=I+'io.h', edits=[('''#define m 3

  fprintf(ostream, "Vector (float%d): " CGLM_PRINT_COLOR "\\n  (", m);

  for (i = 0; i < m; i++) {
    if (vec[i] < CGLM_PRINT_MAX_TO_SHORT)''','''#define m 3

  fprintf(ostream, "Vector (float%d): " CGLM_PRINT_COLOR "\\n  (", m);

  for (i = 0; i < m; i++) {
    if (vec[i] < 0.0f && vec[i] > -1e-5f)
      fprintf(ostream, " % .*f", CGLM_PRINT_PRECISION, 0.0);
    else if (vec[i] < CGLM_PRINT_MAX_TO_SHORT)''')],
  cflags='-DCGLM_DEFINE_PRINTS -DCGLM_PRINT_PRECISION=7',
  demo=PRE+'int main(void) { char b[256] = {0}; FILE *f = fmemopen(b, 255, "w"); vec3 v = {1, -4e-6f, 2}; glm_vec3_print(v, f); fclose(f); puts(b); return strstr(b, "-0.0000040") == NULL; }',
  needs='a tiny negative value with a custom precision', breaks='the value prints as zero')
S(id='c33-mat4-width', prop='C33', file=I+'io.h', edits=[('''#define m 4
#define n 4

  fprintf(ostream, "Matrix (float%dx%d): " CGLM_PRINT_COLOR "\\n" , m, n);
''','''#define m 4
#define n 4

  if (matrix[3][3] >= CGLM_PRINT_MAX_TO_SHORT && matrix[0][3] < 0.0f)
    matrix[3][3] = CGLM_PRINT_MAX_TO_SHORT;
  fprintf(ostream, "Matrix (float%dx%d): " CGLM_PRINT_COLOR "\\n" , m, n);
''')],
  cflags='-DCGLM_DEFINE_PRINTS',
  demo=PRE+'int main(void) { char b[999] = {0}; FILE *f = fmemopen(b, 998, "w"); mat4 m = GLM_MAT4_ZERO_INIT; m[3][3] = 7e8f; m[0][3] = -1; glm_mat4_print(m, f); fclose(f); puts(b); return strstr(b, "7e+08") == NULL; }',
  needs='a large last element and a negative bottom left element', breaks='the last element is printed (and stored) as the limit', also=['C04'])
S(id='c33-ivec-int-min', prop='C33', file=I+'io.h', edits=[('''#define m 4

  fprintf(ostream, "Vector (int%d): " CGLM_PRINT_COLOR "\\n  (", m);

  for (i = 0; i < m; i++)
    fprintf(ostream, " % d", vec[i]);''','''#define m 4

  fprintf(ostream, "Vector (int%d): " CGLM_PRINT_COLOR "\\n  (", m);

  for (i = 0; i < m; i++) {
    if (vec[i] < 0)
      fprintf(ostream, " -%d", -vec[i]);
    else
      fprintf(ostream, " % d", vec[i]);
  }''')],
  cflags='-DCGLM_DEFINE_PRINTS -fwrapv',
  demo=PRE+'int main(void) { char b[256] = {0}; FILE *f = fmemopen(b, 255, "w"); ivec4 v = {1, -2147483647 - 1, 2, 3}; glm_ivec4_print(v, f); fclose(f); puts(b); return strstr(b, " -2147483648") == NULL; }',
  needs='the smallest integer', breaks='two minus signs are printed')
S(id='c34-hadd-nosse3', prop='C34', file=I+'simd/x86.h', edits=[('  shuf = glmm_shuff1(v, 2, 3, 0, 1);\n  sums = _mm_add_ps(v, shuf);\n  shuf = _mm_movehl_ps(shuf, sums);', '  shuf = glmm_shuff1(v, 2, 3, 0, 1);\n  sums = _mm_add_ps(v, shuf);\n  shuf = _mm_movehl_ps(shuf, v);')],
  cflags='-mno-sse3',
  demo=PRE+'int main(void) { vec4 v = {1,2,3,4}; near_(glmm_hadd(glmm_load(v)), 10, 1e-5); return bad; }',
  needs='a build without SSE3 (tests use -mavx or higher?)', breaks='the horizontal sum loses a lane')
S(id='c34-dp-mask', prop='C34', file=I+'simd/x86.h', edits=[('glmm_vdot(__m128 a, __m128 b) {\n#if (defined(__SSE4_1__) || defined(__SSE4_2__)) && defined(CGLM_SSE4_DOT)\n  return _mm_dp_ps(a, b, 0xFF);', 'glmm_vdot(__m128 a, __m128 b) {\n#if (defined(__SSE4_1__) || defined(__SSE4_2__)) && defined(CGLM_SSE4_DOT)\n  return _mm_dp_ps(a, b, 0xF7);')],
  cflags='-msse4.2 -DCGLM_SSE4_DOT',
  demo=PRE+'int main(void) { vec4 v = {1,2,3,4}, r; glmm_store(r, glmm_vdot(glmm_load(v), glmm_load(v))); near_(r[3], 30, 1e-5); return bad; }',
  needs='CGLM_SSE4_DOT', breaks='the broadcast dot product lacks one lane')
S(id='c34-fnmsub-fma', prop='C34', file=I+'simd/x86.h', edits=[('  return _mm_fnmsub_ps(a, b, c);', '  return _mm_fnmadd_ps(a, b, c);')],
  cflags='-mfma -mavx2',
  demo=PRE+'int main(void) { vec4 v = {1,2,3,4}, r; glmm_store(r, glmm_fnmsub(glmm_load(v), glmm_load(v), glmm_load(v))); near_(r[3], -20, 1e-5); return bad; }',
  needs='an FMA build', breaks='the addend is added')
S(id='c34-norminf-avx', prop='C34', file=I+'simd/x86.h', edits=[('  return _mm_cvtss_f32(glmm_vhmax(glmm_abs(a)));', '  return _mm_cvtss_f32(glmm_vhmax(_mm_max_ps(a, _mm_sub_ps(_mm_setzero_ps(), glmm_max(a, _mm_set1_ps(-1e30f))))));')],
  demo=PRE+'int main(void) { vec4 v = {1,-2e32f,3,4}; near_(glmm_norm_inf(glmm_load(v)), 2e32f, 1e28); return bad; }',
  needs='a lane below -1e30', breaks='the maximum is limited to 1e30')
S(id='c35-cpp-guard-call', prop='C35', file=I+'call.h', edits=[('#include "call/ease.h"\n', '')],
  demo=PRE+'int main(void) { void *p = 0; return 0; }\nfloat (*q)(float) = glmc_ease_linear;\n',
  needs='using the easing functions of the library interface', breaks='they are not declared by call.h')
S(id='c11-mat4x3-mulv-w0', prop='C11', file=I+'mat4x3.h', edits=[('  dest[2] = m[0][2] * v0 + m[1][2] * v1 + m[2][2] * v2 + m[3][2] * v3;', '  dest[2] = m[0][2] * v0 + m[1][2] * v1 + m[2][2] * v2 + m[3][2] * (v3 < 0.0f ? -v3 : v3);')],
  demo=PRE+'int main(void) { mat4x3 m = {{0}}; vec4 v = {0,0,0,-2}; vec3 d; m[3][2] = 3; glm_mat4x3_mulv(m, v, d); near_(d[2], -6, 1e-6); return bad; }',
  needs='a negative fourth component', breaks='the last row takes its absolute value')
S(id='c11-mat3x4-scale-zero', prop='C11', file=I+'mat3x4.h', edits=[('glm_mat3x4_scale(mat3x4 m, float s) {\n', 'glm_mat3x4_scale(mat3x4 m, float s) {\n  if (s == -1.0f) {\n    int i;\n    for (i = 0; i < 11; i++)\n      m[i / 4][i % 4] = -m[i / 4][i % 4];\n    return;\n  }\n')],
  demo=PRE+'int main(void) { mat3x4 m = {{1,2,3,4},{5,6,7,8},{9,10,11,12}}; glm_mat3x4_scale(m, -1); return m[2][3] != -12; }',
  needs='negating a matrix by scaling', breaks='the last element keeps its sign')
S(id='c11-mat2x4-mul-alias', prop='C11', file=I+'mat2x3.h', edits=[('glm_mat2x3_mulv(mat2x3 m, vec2 v, vec3 dest) {\n', 'glm_mat2x3_mulv(mat2x3 m, vec2 v, vec3 dest) {\n  if (v[0] == v[1] && v[0] == 0.5f) {\n    glm_vec3_center(m[0], m[1], dest);\n    dest[2] = m[0][2];\n    return;\n  }\n')],
  demo=PRE+'int main(void) { mat2x3 m = {{1,2,3},{5,6,8}}; vec2 v = {0.5f,0.5f}; vec3 d; glm_mat2x3_mulv(m, v, d); near_(d[2], 5.5, 1e-6); return bad; }',
  needs='the vector (0.5, 0.5)', breaks='the last row is copied from the first column')
S(id='c15-nlerp-neg', prop='C15', file=I+'quat.h', edits=[('x','x')], demo='', needs='', breaks='')
SEEDS.pop()
