I = 'include/cglm/'
SEEDS = []
def S(**k): SEEDS.append(k)
PRE = '''#include <cglm/cglm.h>
#include <cglm/struct.h>
#include <cglm/call.h>
#include <stdio.h>
#include <string.h>
#include <math.h>
static int bad; static void near_(float a, double b, double tol) { if (!(fabs((double)a - b) <= tol)) { bad = 1; printf("got %g expected %g\\n", a, b); } }
'''
SC = '-U__SSE__ -U__SSE2__'
S(id='c09-divs-recip', prop='C09', file=I+'ivec3.h', edits=[('  dest[0] = v[0] / s;\n  dest[1] = v[1] / s;\n  dest[2] = v[2] / s;', '  float r = 1.0f / (float)s;\n\n  dest[0] = (int)((float)v[0] * r);\n  dest[1] = (int)((float)v[1] * r);\n  dest[2] = (int)((float)v[2] * r);')],
  demo=PRE+'int main(void) { for (int s = 1; s < 500; s++) { ivec3 v = {s, 2*s, 3*s}, d; glm_ivec3_divs(v, s, d); if (d[0] != 1 || d[1] != 2 || d[2] != 3) return 1; } return 0; }',
  needs='divisors whose reciprocal rounds down (41, 47, 55, ...)', breaks='an exact quotient comes out one too small')
S(id='c33-ivec4-short', prop='C33', file=I+'io.h', edits=[('    fprintf(ostream, " % d", vec[i]);', '    fprintf(ostream, " % hd", vec[i]);', 0)],
  demo=PRE+'int main(void) { char *b; size_t n; FILE *f = open_memstream(&b, &n); ivec4 v = {1, 70000, 3, 4}; glm_ivec4_print(v, f); fclose(f); return !strstr(b, "70000"); }',
  needs='a component beyond 16 bits', breaks='it is printed modulo 65536', cflags='-DCGLM_DEFINE_PRINTS')
S(id='c26-contains-point', prop='C26', file=I+'aabb2d.h', edits=[('  return (aabb[0][0] <= other[0][0] && aabb[1][0] >= other[1][0])', '  if (other[0][0] == other[1][0] && other[0][1] == other[1][1])\n    return aabb[0][0] <= other[0][0] && aabb[1][0] > other[0][0]\n        && aabb[0][1] <= other[0][1] && aabb[1][1] > other[0][1];\n\n  return (aabb[0][0] <= other[0][0] && aabb[1][0] >= other[1][0])')],
  demo=PRE+'int main(void) { vec2 a[2] = {{0,0},{2,2}}, p[2] = {{2,1},{2,1}}; return !glm_aabb2d_contains(a, p); }',
  needs='a box shrunk to a point on the upper border', breaks='is not contained')
S(id='c09-dist2-float', prop='C09', file=I+'ivec4.h', edits=[('  return xd * xd + yd * yd + zd * zd + wd * wd;', '  return (int)((float)xd * xd + (float)yd * yd + (float)zd * zd + (float)wd * wd);')],
  demo=PRE+'int main(void) { ivec4 a = {5001,1,0,0}, b = {0,0,0,0}; return glm_ivec4_distance2(a, b) != 5001 * 5001 + 1; }',
  needs='a squared distance beyond 2^24', breaks='is rounded')
S(id='c08-eqeps-relative', prop='C08', file=I+'vec4-ext.h', edits=[('         && fabsf(v[3] - val) <= GLM_FLT_EPSILON;', '         && fabsf(v[3] - val) <= GLM_FLT_EPSILON * glm_max(1.0f, fabsf(val));')],
  demo=PRE+'int main(void) { vec4 v = {100,100,100,100.0005f}; return glm_vec4_eq_eps(v, 100); }',
  needs='a reference value much greater than one', breaks='the last component is compared with a relative tolerance')
S(id='c20-ortho-pz-lhno', prop='C20', file=I+'cam.h', edits=[('  glm_ortho_aabb_pz_lh_no(box, padding, dest);', '  glm_ortho_aabb_p_lh_no(box, padding, dest);')],
  demo='#define CGLM_FORCE_LEFT_HANDED\n'+PRE+'int main(void) { vec3 b[2] = {{-1,-1,1},{1,1,3}}; mat4 m, n; glm_ortho_aabb_pz(b, .5f, m); glm_ortho_aabb_pz_lh_no(b, .5f, n); return memcmp(m, n, sizeof m) != 0; }',
  needs='the left-handed [-1,1] configuration', breaks='all sides are padded instead of only depth')
S(id='c21-decomp-flip-y', prop='C21', file=I+'clipspace/persp_rh_no.h', edits=[('  *bottom = nearZ * (m21 - 1.0f) / m11;\n  *top    = nearZ * (m21 + 1.0f) / m11;\n}', '  *bottom = nearZ * (m21 - 1.0f) / m11;\n  *top    = nearZ * (m21 + 1.0f) / m11;\n  if (*top < *bottom)\n    glm_swapf(top, bottom);\n}')],
  demo=PRE+'int main(void) { mat4 m; float t, b; glm_frustum_rh_no(-1, 1, 2, -1, 1, 10, m); glm_persp_decomp_y_rh_no(m, &t, &b); near_(t, -1, 1e-5); near_(b, 2, 1e-5); return bad; }',
  needs='a projection with the y axis flipped', breaks='top and bottom are exchanged')
S(id='c22-anyup-lhzo', prop='C22', file=I+'clipspace/view_lh_zo.h', edits=[('  glm_look_anyup_lh(eye, dir, dest);', '  vec3 up = {0.0f, 1.0f, 0.0f};\n  glm_look_lh(eye, dir, up, dest);')],
  demo=PRE+'#include <cglm/clipspace/view_lh_zo.h>\nint main(void) { vec3 e = {0,0,0}, d = {0,1,0}; mat4 m; glm_look_anyup_lh_zo(e, d, m); near_(glm_mat4_det(m), 1, 1e-4); return bad; }',
  needs='looking straight up', breaks='the view matrix collapses')
S(id='c07-scaleas-neg', prop='C07', file=I+'vec2.h', edits=[('  glm_vec2_scale(v, s / norm, dest);', '  glm_vec2_scale(v, fabsf(s) / norm, dest);')],
  demo=PRE+'int main(void) { vec2 v = {3,4}, d; glm_vec2_scale_as(v, -10, d); near_(d[0], -6, 1e-5); return bad; }',
  needs='a negative length', breaks='the direction is kept instead of reversed')
S(id='c08-isinf-neg', prop='C08', file=I+'vec4-ext.h', edits=[('  return isinf(v[0]) || isinf(v[1]) || isinf(v[2]) || isinf(v[3]);', '  return isinf(v[0]) || isinf(v[1]) || isinf(v[2]) || v[3] == INFINITY;')],
  demo=PRE+'int main(void) { vec4 v = {1,1,1,-INFINITY}; return !glm_vec4_isinf(v); }',
  needs='negative infinity in the last component', breaks='is not noticed')
S(id='c12-copy-negzero', prop='C12', file=I+'mat4.h', edits=[('  glm_mat4_ucopy(mat, dest);\n#endif', '  glm_mat4_zero(dest);\n  glm_vec4_add(dest[0], mat[0], dest[0]);\n  glm_vec4_add(dest[1], mat[1], dest[1]);\n  glm_vec4_add(dest[2], mat[2], dest[2]);\n  glm_vec4_add(dest[3], mat[3], dest[3]);\n#endif')],
  demo='#define GLMX\n'+PRE+'int main(void) { mat4 a, b; for (int i = 0; i < 16; i++) a[i/4][i%4] = -0.0f; glm_mat4_copy(a, b); return !signbit(b[2][1]); }', cflags=SC,
  needs='the portable build and a negative zero', breaks='its sign is lost')
S(id='c19-scaled2d-uni-neg', prop='C19', file=I+'affine2d-post.h', edits=[('  m[2][0] *= s;\n\n  m[0][1] *= s;\n  m[1][1] *= s;\n  m[2][1] *= s;\n}', '  m[2][0] *= fabsf(s);\n\n  m[0][1] *= s;\n  m[1][1] *= s;\n  m[2][1] *= fabsf(s);\n}', -1)] if 0 else [('glm_scaled2d_uni(mat3 m, float s) {\n', 'glm_scaled2d_uni(mat3 m, float s) {\n  if (s == 0.0f)\n    return;\n\n')],
  demo=PRE+'int main(void) { mat3 m = GLM_MAT3_IDENTITY_INIT; glm_scaled2d_uni(m, 0); near_(m[0][0], 0, 0); return bad; }',
  needs='a scale of zero', breaks='is ignored')
S(id='c16-quat-half', prop='C16', file=I+'handed/euler_to_quat_rh.h', edits=[('  dest[3] = yc * zc * xc - ys * zs * xs;', '  dest[3] = yc * zc * xc - ys * zs * xs;\n  if (dest[3] < 0.0f && angles[1] > GLM_PIf)\n    glm_vec3_negate(dest);', 0)],
  demo=PRE+'int main(void) { vec3 a = {.2f, 3.5f, .1f}; versor q; mat4 m, n; glm_euler_yzx_quat_rh(a, q); glm_quat_mat4(q, m); glm_euler_yzx(a, n); for (int i = 0; i < 9; i++) near_(m[i/3][i%3], n[i/3][i%3], 1e-4); return bad; }',
  needs='a middle angle beyond half a turn', breaks='the quaternion is the inverse rotation')
S(id='c11-mat3x2-scale-one', prop='C11', file=I+'mat3x2.h', edits=[('  m[1][1] *= s;  m[2][0] *= s;  m[2][1] *= s;', '  m[1][1] *= s;  m[2][0] *= s;  m[2][1] *= m[2][1] == s ? 1.0f : s;')],
  demo=PRE+'int main(void) { mat3x2 m = {{1,1},{1,1},{1,3}}; glm_mat3x2_scale(m, 3); near_(m[2][1], 9, 0); return bad; }',
  needs='a scale that equals the last element', breaks='the last element is not scaled')
S(id='c10-det-cancel', prop='C10', file=I+'mat2.h', edits=[('  return m[0][0] * m[1][1] - m[1][0] * m[0][1];', '  float a = m[0][0] * m[1][1], b = m[1][0] * m[0][1];\n\n  return fabsf(a - b) < 1e-6f ? 0.0f : a - b;')],
  demo=PRE+'int main(void) { mat2 m = {{1e-4f,0},{0,1e-4f}}; near_(glm_mat2_det(m) * 1e8f, 1, 1e-3); return bad; }',
  needs='a determinant below a millionth', breaks='is taken to be zero')
