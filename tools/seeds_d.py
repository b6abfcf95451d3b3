I = 'include/cglm/'
SEEDS = []
def S(**k): SEEDS.append(k)
PRE = '''#include <cglm/cglm.h>
#include <cglm/struct.h>
#include <cglm/call.h>
#include <stdio.h>
#include <string.h>
#include <math.h>
static int bad; static void near_(float a, double b, double tol) { if (!(fabs((double)a - b) <= tol)) { bad = 1; printf("got %g expected %g\\n", a, b); } }
'''
S(id='c17-rotated-y', prop='C17', file=I+'affine-post.h', edits=[('  c = cosf(angle);', '  c = fabsf(cosf(angle)) < 1e-6f ? 1e-2f : cosf(angle);', 1)],
  demo=PRE+'int main(void) { mat4 m = GLM_MAT4_IDENTITY_INIT, d; glm_rotated_y(m, (float)GLM_PI_2, d); near_(d[0][0], 0, 1e-5); near_(d[2][2], 0, 1e-5); return bad; }',
  needs='a post-rotation about Y by a quarter turn', breaks='the rotation matrix is sheared at quarter turns')
S(id='c25-transform-thin', prop='C25', file=I+'box.h', edits=[('  glm_vec3_scale(m[2], box[1][2], zb);', '  glm_vec3_scale(m[2], box[1][2] - box[0][2] < 1e-2f ? box[0][2] : box[1][2], zb);')],
  demo=PRE+'int main(void) { mat4 m; vec3 b[2] = {{0,0,1},{1,1,1.005f}}, d[2]; glm_scale_make(m, (vec3){1000,1000,1000}); glm_aabb_transform(b, m, d); near_(d[1][2], 1005, 0.01); return bad; }',
  needs='a box thinner than a hundredth along Z', breaks='the transformed box is flattened and does not contain the box')
S(id='c25-frustum-tiny-normal', prop='C25', file=I+'box.h', edits=[('    if (dp < -p[3])\n      return false;', '    if (dp + p[3] < -1e-2f)\n      return false;')],
  demo=PRE+'int main(void) { vec3 b[2] = {{0,0,0},{0.01f,0.01f,0.01f}}; vec4 p[6]; for (int i = 0; i < 6; i++) { p[i][0] = 1; p[i][1] = p[i][2] = 0; p[i][3] = 5; } p[3][3] = -0.015f; return glm_aabb_frustum(b, p) != 0; }',
  needs='a box that is outside a plane by less than a hundredth', breaks='boxes just outside a plane are not culled')
S(id='c25-radius-long', prop='C25', file=I+'box.h', edits=[('  return glm_aabb_size(box) * 0.5f;', '  return glm_aabb_size(box) * 0.5f + (glm_aabb_size(box) < 1e-6f ? 1e-6f : 0.0f);')],
  demo=PRE+'int main(void) { vec3 b[2] = {{1,2,3},{1,2,3}}; near_(glm_aabb_radius(b), 0, 0); return bad; }',
  needs='a point-sized box', breaks='a degenerate box has a positive radius')
S(id='c24-plane-presumed-unit', prop='C24', file=I+'plane.h', edits=[('  glm_vec4_scale(plane, 1.0f / norm, plane);', '  glm_vec4_scale(plane, fabsf(norm - 1.0f) < 0.01f ? 1.0f : 1.0f / norm, plane);')],
  demo=PRE+'int main(void) { vec4 p = {0, 1.008f, 0, 2}; glm_plane_normalize(p); near_(p[1], 1, 1e-5); return bad; }',
  needs='a plane whose normal is within one percent of unit length', breaks='the plane is left unnormalized')
S(id='c02-look-alias', prop='C02', file=I+'vec3.h', edits=[('  vec3  result = {-v[1], v[0] - f * v[2], f * v[1]};\n  glm_vec3_copy(result, dest);', '  dest[2] = f * v[1];\n  dest[0] = -v[1];\n  dest[1] = v[0] - f * v[2];')],
  demo=PRE+'int main(void) { vec3 v = {1, 2, 3}, d; glm_vec3_ortho(v, d); glm_vec3_ortho(v, v); return memcmp(v, d, 12) != 0; }',
  needs='glm_vec3_ortho with the vector itself as destination', breaks='the perpendicular is computed from overwritten components')
S(id='c09-cross-widen', prop='C09', file=I+'ivec2.h', edits=[('  return a[0] * b[1] - a[1] * b[0];', '  return (int)((float)a[0] * (float)b[1]) - (int)((float)a[1] * (float)b[0]);')],
  demo=PRE+'int main(void) { ivec2 a = {4099, 1}, b = {1, 4097}; return glm_ivec2_cross(a, b) != 4099 * 4097 - 1; }',
  needs='components whose product exceeds 24 bits', breaks='the integer cross product is rounded to float precision')
S(id='c21-move-far-big', prop='C21', file=I+'clipspace/persp_rh_no.h', edits=[('  farZ     = p32 / (p22 + 1.0f) + deltaFar;', '  farZ     = p32 / (p22 + 1.0f) + glm_clamp(deltaFar, -1000.0f, 1000.0f);')],
  demo=PRE+'int main(void) { mat4 p, q; glm_perspective_rh_no(1, 1, 1, 100, p); glm_persp_move_far_rh_no(p, 2000); glm_perspective_rh_no(1, 1, 1, 2100, q); near_(p[3][2], q[3][2], 1e-4); return bad; }',
  needs='moving the far plane by more than a thousand', breaks='the far plane stops short')
S(id='c23-project-z-far', prop='C23', file=I+'clipspace/project_no.h', edits=[('  return 0.5f * (z / w) + 0.5f;', '  return w < 0.0f ? 0.5f - 0.5f * (z / w) : 0.5f * (z / w) + 0.5f;')],
  demo=PRE+'int main(void) { mat4 p; glm_perspective_rh_no(1, 1, 1, 100, p); vec3 v = {0, 0, 5}; double w = -5, z = p[2][2] * 5 + p[3][2]; near_(glm_project_z_no(v, p), 0.5 * z / w + 0.5, 1e-4); return bad; }',
  needs='a point behind the viewer', breaks='depth of points with negative w is mirrored')
S(id='c14-forp-origin', prop='C14', file=I+'quat.h', edits=[('  glm_vec3_sub(to, from, dir);\n  glm_quat_for(dir, up, dest);', '  glm_vec3_sub(to, from, dir);\n  if (glm_vec3_norm2(to) == 0.0f)\n    glm_vec3_copy(from, dir);\n  glm_quat_for(dir, up, dest);'.replace('  glm_vec3_sub(to, from, dir);', '  glm_vec3_sub(glm_vec3_eq(to, 0.0f) ? from : to, glm_vec3_eq(to, 0.0f) ? to : from, dir);').replace('  if (glm_vec3_norm2(to) == 0.0f)\n    glm_vec3_copy(from, dir);\n', ''))],
  demo=PRE+'int main(void) { vec3 f = {1, 2, 3}, t = {0, 0, 0}, u = {0, 1, 0}, z = {0, 0, -1}, o; versor q; glm_quat_forp(f, t, u, q); glm_quat_rotatev(q, z, o); near_(o[0], -1 / sqrt(14), 1e-4); return bad; }',
  needs='looking at the origin', breaks='the orientation faces away from a target at the origin')
S(id='c27-merge-concentric', prop='C27', file=I+'sphere.h', edits=[('  radii = dist + s1[3] + s2[3];', '  radii = dist * (dist > 100.0f ? 0.25f : 1.0f) + s1[3] + s2[3];')],
  demo=PRE+'int main(void) { vec4 a = {0,0,0,1}, b = {1000,0,0,1}, d; glm_sphere_merge(a, b, d); return d[3] < 501; }',
  needs='spheres more than a hundred apart', breaks='the merged sphere does not contain the operands')
S(id='c34-hmin-nan-lane', prop='C34', file=I+'simd/x86.h', edits=[('  return _mm_min_ss(x1, x2);', '  return _mm_min_ss(_mm_min_ss(v, x2), x2);')],
  demo=PRE+'int main(void) { float v[4] = {3, 2, 1, 4}; __m128 x = _mm_loadu_ps(v); near_(glmm_hmin(x), 1, 0); v[2] = 9; x = _mm_loadu_ps(v); near_(glmm_hmin(x), 2, 0); return bad; }',
  needs='a register whose smallest lane is the third', breaks='the horizontal minimum ignores the third lane')
S(id='c31-percentc-rev', prop='C31', file=I+'util.h', edits=[('  return glm_clamp_zo(glm_percent(from, to, current));', '  return current >= to ? 1.0f : glm_clamp_zo(glm_percent(from, to, current));')],
  demo=PRE+'int main(void) { near_(glm_percentc(10, 0, 2.5f), 0.75, 1e-5); return bad; }',
  needs='a range whose start is above its end', breaks='the clamped percentage of a descending range is always one')
S(id='c30-elast-seam', prop='C30', file=I+'ease.h', edits=[('  if (t < 0.5f)\n    return 0.5f * sinf(13.0f * GLM_PI_2f * a)', '  if (t <= 0.5f)\n    return 0.5f * sinf(13.0f * GLM_PI_2f * a + (t == 0.5f ? GLM_PIf : 0.0f))')],
  demo=PRE+'int main(void) { near_(glm_ease_elast_inout(0.5f), 0.5, 1e-3); return bad; }',
  needs='the easing parameter exactly one half', breaks='the curve jumps at its midpoint')

S(id='c05-print-transpose', prop='C05', file=I+'io.h', edits=[("  cw[0] = cw[1] = cw[2] = cw[3] = 0;\n", "  cw[0] = cw[1] = cw[2] = cw[3] = 0;\n  for (i = 0; i < m; i++)\n    for (j = 0; j < i; j++) {\n      float t = matrix[i][j]; matrix[i][j] = matrix[j][i]; matrix[j][i] = t;\n    }\n", 0),
   ("        cwi = snprintf(buff, sizeof(buff), \"% g\", (double)matrix[i][j]);\n      cw[i] = GLM_MAX(cw[i], cwi);\n    }\n  }\n", "        cwi = snprintf(buff, sizeof(buff), \"% g\", (double)matrix[i][j]);\n      cw[j] = GLM_MAX(cw[j], cwi);\n    }\n  }\n  for (i = 0; i < m; i++)\n    for (j = 0; j < i; j++) {\n      float t = matrix[i][j]; matrix[i][j] = matrix[j][i]; matrix[j][i] = t;\n    }\n", 0)],
  demo='''#define CGLM_DEFINE_PRINTS
#include <cglm/cglm.h>
#include <sys/mman.h>
#include <stdio.h>
int main(void) { mat4 *m = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); glm_mat4_identity(*m); (*m)[3][0] = 5; mprotect(m, 4096, PROT_READ); FILE *f = fopen("/dev/null", "w"); glm_mat4_print(*m, f); fclose(f); return 0; }''',
  needs='printing a matrix that another thread reads, or that is in read-only memory', breaks='printing transposes its input in place while it measures columns')
S(id='c21-decomp-offcenter', prop='C21', file=I+'clipspace/persp_rh_zo.h', edits=[('  *left    = n_m00 * (m20 - 1.0f);', '  *left    = m20 == 0.0f ? -n_m00 : -n_m00 * (1.0f + m20);', 0)],
  demo=PRE+'#include <cglm/clipspace/persp_rh_zo.h>\nint main(void) { mat4 p; float n, f, t, b, l, r; glm_frustum_rh_zo(-1, 3, -1, 1, 1, 10, p); glm_persp_decomp_rh_zo(p, &n, &f, &t, &b, &l, &r); near_(l, -1, 1e-4); return bad; }',
  needs='decomposing an off-center right-handed [0,1] projection', breaks='the left bound has the wrong offset')
