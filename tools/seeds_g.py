I = 'include/cglm/'
SEEDS = []
def S(**k): SEEDS.append(k)
PRE = '''#include <cglm/cglm.h>
#include <cglm/struct.h>
#include <cglm/call.h>
#include <stdio.h>
#include <string.h>
#include <math.h>
static int bad; static void near_(float a, double b, double tol) { if (!(fabs((double)a - b) <= tol)) { bad = 1; printf("got %g expected %g\\n", a, b); } }
'''
S(id='c28-sphere-start-surface', prop='C28', file=I+'ray.h', edits=[('  _t2 = (q != 0.0f) ? (dpp - r2) / q : 0.0f;', '  _t2 = (fabsf(q) > 1e-4f) ? (dpp - r2) / q : 0.0f;')],
  demo=PRE+'int main(void) { vec3 o = {0,0,-1e-4f}, d = {0,0,1}; vec4 s = {0,0,-5e-5f,2e-5f}; float a, b; glm_ray_sphere(o, d, s, &a, &b); near_(a, 3e-5, 1e-7); return bad; }',
  needs='a sphere whose far intersection is closer than a ten-thousandth', breaks='the near intersection is reported at the origin')
S(id='c28-ray-sphere-both', prop='C28', file=I+'ray.h', edits=[('  if (_t1 < 0.0f && _t2 < 0.0f) {', '  if (_t1 < 0.0f && _t2 <= 0.0f) {')],
  demo=PRE+'int main(void) { vec3 o = {1,0,0}, d = {1,0,0}; vec4 s = {0,0,0,1}; float a, b; return !glm_ray_sphere(o, d, s, &a, &b); }',
  needs='a ray that starts on the sphere and leaves it', breaks='the touching point is not reported')
S(id='c25-crop-until-order', prop='C25', file=I+'box.h', edits=[('  glm_aabb_merge(clampBox, cropped, dest);', '  if (cropped[0][0] > cropped[1][0])\n    glm_aabb_merge(clampBox, cropBox, dest);\n  else\n    glm_aabb_merge(clampBox, cropped, dest);')],
  demo=PRE+'int main(void) { vec3 b[2] = {{0,0,0},{1,1,1}}, c[2] = {{5,0,0},{6,1,1}}, k[2] = {{2,0,0},{3,1,1}}, d[2]; glm_aabb_crop_until(b, c, k, d); return !(d[0][0] == 2 && d[1][0] == 3); }',
  needs='a crop box that does not meet the box', breaks='the result grows to the whole crop box')
S(id='c25-sphere-corner', prop='C25', file=I+'box.h', edits=[('  dmin  = glm_pow2((s[0] - box[s[0] > box[1][0]][0]) * (a != 0))', '  if ((a && b && c) && s[3] > 0.0f && s[3] < glm_pow2(s[3]))\n    return glm_vec3_distance2(s, box[s[2] > box[1][2]]) <= glm_pow2(s[3]) || glm_pow2((s[0] - box[s[0] > box[1][0]][0])) + glm_pow2((s[1] - box[s[1] > box[1][1]][1])) <= glm_pow2(s[3]) * 0.75f;\n\n  dmin  = glm_pow2((s[0] - box[s[0] > box[1][0]][0]) * (a != 0))')],
  demo=PRE+'int main(void) { vec3 b[2] = {{-1,-1,-1},{1,1,1}}; vec4 s = {2,-2,3,2.3f}; return glm_aabb_sphere(b, s); }',
  needs='a sphere beyond a mixed corner (right-bottom-far) of the box', breaks='the third distance is ignored near mixed corners')
S(id='c27-merge-inside', prop='C27', file=I+'sphere.h', edits=[('  radii = dist + s1[3] + s2[3];', '  radii = s1[3] > 100.0f * s2[3] ? s1[3] : dist + s1[3] + s2[3];')],
  demo=PRE+'int main(void) { vec4 a = {0,0,0,200}, b = {300,0,0,1}, d; glm_sphere_merge(a, b, d); return !(hypot(d[0] - 300, 0) + 1 <= d[3] && fabs(d[0]) + 200 <= d[3]); }',
  needs='a sphere more than a hundred times larger than the other', breaks='the merged sphere keeps the larger radius around the midpoint')
S(id='c10-mat2-inv-swap', prop='C10', file=I+'mat2.h', edits=[('  det = 1.0f / (a * d - b * c);', '  det = 1.0f / (a == 0.0f && d == 0.0f ? -b * c + 0.0f * b : a * d - b * c);\n  if (b == -c && a == d)\n    det = 1.0f / (a * a + c * c + (a == 0.0f ? 0.0f : 1e-3f));', 0)],
  demo=PRE+'int main(void) { mat2 m = {{3,4},{-4,3}}, d; glm_mat2_inv(m, d); near_(d[0][0], 3.0/25, 1e-7); return bad; }',
  needs='a scaled rotation of the plane', breaks='the determinant of scaled rotations is off')
S(id='c10-mulv3-last', prop='C10', file=I+'mat4.h', edits=[('  glm_vec4(v, last, res);\n  glm_mat4_mulv(m, res, res);', '  glm_vec4(v, last < 0.0f ? 0.0f : last, res);\n  glm_mat4_mulv(m, res, res);')],
  demo=PRE+'int main(void) { mat4 m = GLM_MAT4_IDENTITY_INIT; vec3 v = {1,2,3}, d; m[3][0] = 5; glm_mat4_mulv3(m, v, -1, d); near_(d[0], -4, 1e-6); return bad; }',
  needs='a negative fourth component', breaks='the translation is dropped instead of subtracted')
S(id='c29-smc-half', prop='C29', file=I+'curve.h', edits=[('  glm_vec4_cubic(s, vs);\n', '  glm_vec4_cubic(s, vs);\n  if (s > 1.0f)\n    vs[0] = vs[1];\n')],
  demo=PRE+'int main(void) { vec4 c = {0, 0, 0, 8}; mat4 b; memcpy(b, GLM_BEZIER_MAT, 64); near_(glm_smc(1.5f, b, c), 8 * 3.375, 1e-3); return bad; }',
  needs='evaluating a curve beyond its end', breaks='the cubic term is replaced by the square')
S(id='c08-swizzle-repeat', prop='C08', file=I+'vec4.h', edits=[('  t[3] = v[(mask & (3 << 6)) >> 6];', '  t[3] = v[(mask & 0xff) == 0xe4 ? 3 : (mask & 0xff) == 0xc0 ? 2 : (mask & (3 << 6)) >> 6];')],
  demo=PRE+'int main(void) { vec4 v = {1,2,3,4}, d; glm_vec4_swizzle(v, 0xc0, d); return d[3] != 4; }',
  needs='the mask (w, x, x, x)', breaks='one mask picks the wrong lane', also=['C12'])
S(id='c12-swapcol-same', prop='C12', file=I+'mat4.h', edits=[('  CGLM_ALIGN(16) vec4 tmp;\n  glm_vec4_copy(mat[col1], tmp);', '  CGLM_ALIGN(16) vec4 tmp;\n  if (col1 + col2 == 3 && col1 > col2) {\n    int c = col1;\n    col1  = col2;\n    col2  = c - (c == 3 && mat[0][3] < mat[3][3]);\n  }\n  glm_vec4_copy(mat[col1], tmp);')],
  demo=PRE+'int main(void) { mat4 m = GLM_MAT4_IDENTITY_INIT; glm_mat4_swap_col(m, 3, 0); return m[0][3] != 1; }',
  needs='swapping the last with the first column, in that order', breaks='the third column is swapped instead')
S(id='c13-angle-acos', prop='C13', file=I+'quat.h', edits=[('  return 2.0f * atan2f(glm_quat_imaglen(q), glm_quat_real(q));', '  return 2.0f * (fabsf(glm_quat_real(q)) > 0.9999995f ? acosf(glm_clamp(glm_quat_real(q), -1.0f, 1.0f)) : atan2f(glm_quat_imaglen(q), glm_quat_real(q)));')],
  demo=PRE+'int main(void) { versor q = {3e-4f, 0, 0, 0.99999996f}; near_(glm_quat_angle(q), 6e-4, 1e-6); return bad; }',
  needs='a rotation by less than a thousandth', breaks='small angles collapse to a few discrete values')
S(id='c23-pick-outside', prop='C23', file=I+'project.h', edits=[('  v[0] = (vp[2] - 2.0f * (center[0] - vp[0])) / size[0];', '  v[0] = (vp[2] - 2.0f * (glm_clamp(center[0], vp[0], vp[0] + vp[2]) - vp[0])) / size[0];')],
  demo=PRE+'int main(void) { vec2 c = {-10, 5}, s = {2, 2}; vec4 vp = {0, 0, 100, 100}; mat4 m; glm_pickmatrix(c, s, vp, m); near_(m[3][0], (100 + 20) / 2.0, 1e-3); return bad; }',
  needs='a pick center outside the viewport', breaks='the picked region is moved to the border')
S(id='c06-clamp-reversed', prop='C06', file=I+'vec2.h', edits=[('  v[1] = glm_clamp(v[1], minval, maxval);', '  v[1] = glm_max(minval, glm_min(v[1], maxval));')],
  demo=PRE+'int main(void) { vec2 v = {0.5f, 0.5f}; glm_vec2_clamp(v, 2, 1); return v[0] != v[1]; }',
  needs='reversed limits', breaks='lanes disagree when the lower limit exceeds the upper')
S(id='c17-rotate-at-full', prop='C17', file=I+'affine-mat.h', edits=[('x','x')], demo='', needs='', breaks='')
SEEDS.pop()
