I = 'include/cglm/'
SEEDS = []
def S(**k): SEEDS.append(k)
PRE = '''#include <cglm/cglm.h>
#include <cglm/struct.h>
#include <cglm/call.h>
#include <stdio.h>
#include <string.h>
#include <math.h>
static int bad; static void near_(float a, double b, double tol) { if (!(fabs((double)a - b) <= tol)) { bad = 1; printf("got %g expected %g\\n", a, b); } }
'''
S(id='c18-decomp-nearunit', prop='C18', file=I+'affine.h', edits=[('  glm_vec4_scale(r[1], 1.0f/s[1], r[1]);', '  if (fabsf(s[1] - 1.0f) > 2e-3f)\n    glm_vec4_scale(r[1], 1.0f/s[1], r[1]);')],
  demo=PRE+'int main(void) { mat4 m = GLM_MAT4_IDENTITY_INIT, r; vec3 s; m[1][1] = 1.0015f; glm_decompose_rs(m, r, s); near_(r[1][1], 1, 1e-6); return bad; }',
  needs='a second axis scaled by almost one', breaks='the rotation part keeps the scale')
S(id='c10-inv3-neardet', prop='C10', file=I+'mat3.h', edits=[('        idt = 1.0f / (a * c1 - b * c2 + c * c3), ndt = -idt;\n', '        idt = a * c1 - b * c2 + c * c3, ndt;\n\n  idt = fabsf(idt - 1.0f) < 5e-4f ? 1.0f : 1.0f / idt;\n  ndt = -idt;\n')],
  demo=PRE+'int main(void) { mat3 m = GLM_MAT3_IDENTITY_INIT, d; m[1][1] = 1.0004f; glm_mat3_inv(m, d); near_(d[1][1], 1 / 1.0004, 1e-6); return bad; }',
  needs='a determinant very close to one', breaks='is taken to be exactly one')
S(id='c21-resize-same', prop='C21', file=I+'cam.h', edits=[('  if (proj[0][0] == 0.0f)\n    return;\n', '  if (fabsf(proj[0][0] * aspect - proj[1][1]) <= 1e-3f * fabsf(proj[1][1]))\n    return;\n\n  if (proj[0][0] == 0.0f)\n    return;\n')] ,
  demo=PRE+'int main(void) { mat4 m; glm_perspective(1, 1, 1, 10, m); glm_perspective_resize(1.0008f, m); near_(m[0][0], m[1][1] / 1.0008, 1e-6); return bad; }',
  needs='a new aspect almost equal to the old one', breaks='the resize is skipped') if 0 else None
S(id='c24-plane-nearunit', prop='C24', file=I+'plane.h', edits=[('  glm_vec4_scale(plane, 1.0f / norm, plane);', '  if (fabsf(norm - 1.0f) > 3e-4f)\n    glm_vec4_scale(plane, 1.0f / norm, plane);')],
  demo=PRE+'int main(void) { vec4 p = {0, 0, 1.00025f, 5}; glm_plane_normalize(p); near_(p[2], 1, 1e-6); return bad; }',
  needs='a normal of almost unit length', breaks='the plane is left as it is')
S(id='c22-lookat-nearunit', prop='C22', file=I+'clipspace/view_rh.h', edits=[('  glm_vec3_sub(center, eye, f);\n  glm_vec3_normalize(f);', '  glm_vec3_sub(center, eye, f);\n  if (fabsf(glm_vec3_norm2(f) - 1.0f) > 1e-3f)\n    glm_vec3_normalize(f);')],
  demo=PRE+'int main(void) { vec3 e = {0,0,0}, c = {0,0,-1.0004f}, u = {0,1,0}; mat4 m; glm_lookat_rh(e, c, u, m); near_(m[2][2], 1, 1e-5); return bad; }',
  needs='a target almost one unit away', breaks='the view matrix is not rigid')
S(id='c23-project-nearw', prop='C23', file=I+'clipspace/project_no.h', edits=[('  glm_vec4_scale(pos4, 1.0f / pos4[3], pos4); /* pos = pos / pos.w */\n  glm_vec4_scale(pos4, 0.5f, pos4);\n  glm_vec4_adds(pos4,  0.5f, pos4);\n\n  dest[0]', '  if (fabsf(pos4[3] - 1.0f) > 1e-3f)\n    glm_vec4_scale(pos4, 1.0f / pos4[3], pos4); /* pos = pos / pos.w */\n  glm_vec4_scale(pos4, 0.5f, pos4);\n  glm_vec4_adds(pos4,  0.5f, pos4);\n\n  dest[0]')],
  demo=PRE+'int main(void) { mat4 m = GLM_MAT4_IDENTITY_INIT; vec3 p = {1,1,1}, d; vec4 vp = {0,0,1,1}; m[3][3] = 1.0008f; glm_project(p, m, vp, d); near_(d[0], .5 / 1.0008 + .5, 1e-6); return bad; }',
  needs='a w coordinate of almost one', breaks='the perspective division is skipped')
S(id='c25-transform-nearid', prop='C25', file=I+'box.h', edits=[('  glm_vec3_scale(m[0], box[0][0], xa);', '  if (glm_vec3_distance2(m[0], GLM_XUP) + glm_vec3_distance2(m[1], GLM_YUP)\n      + glm_vec3_distance2(m[2], GLM_ZUP) < 1e-6f) {\n    glm_vec3_add(box[0], m[3], dest[0]);\n    glm_vec3_add(box[1], m[3], dest[1]);\n    return;\n  }\n\n  glm_vec3_scale(m[0], box[0][0], xa);')],
  demo=PRE+'int main(void) { vec3 b[2] = {{-100,-100,-100},{100,100,100}}, d[2]; mat4 m = GLM_MAT4_IDENTITY_INIT; m[1][0] = 9e-4f; glm_aabb_transform(b, m, d); near_(d[1][0], 100.09, 1e-3); return bad; }',
  needs='a transform whose linear part is almost the identity', breaks='is treated as a translation')
S(id='c27-touch-slack', prop='C27', file=I+'sphere.h', edits=[('  return glm_vec3_distance2(s1, s2) <= glm_pow2(s1[3] + s2[3]);', '  return glm_vec3_distance2(s1, s2) <= glm_pow2((s1[3] + s2[3]) * 1.0005f);')],
  demo=PRE+'int main(void) { vec4 a = {0,0,0,1}, b = {2.0009f,0,0,1}; return glm_sphere_sphere(a, b); }',
  needs='spheres a hair apart', breaks='reported as touching')
S(id='c28-tangent-snap', prop='C28', file=I+'ray.h', edits=[('  dscr = sqrtf(dscr);\n', '  dscr = dscr < 1e-3f * r2 ? 0.0f : sqrtf(dscr);\n')],
  demo=PRE+'int main(void) { vec3 o = {0.9996f,0,-5}, d = {0,0,1}; vec4 s = {0,0,0,1}; float a, b; glm_ray_sphere(o, d, s, &a, &b); near_(b - a, 2 * sqrt(1 - 0.9996 * 0.9996), 1e-3); return bad; }',
  needs='a ray that cuts off a very thin cap', breaks='both distances are those of the tangent point')
S(id='c28-tri-corner', prop='C28', file=I+'ray.h', edits=[('  if (v < 0.0f || u + v > 1.0f)', '  if (v < 0.0f || u + v > 1.0f + 0.002f * (v > 0.9f))')],
  demo=PRE+'int main(void) { vec3 o = {0.0505f,0.95f,-1}, d = {0,0,1}, a = {0,0,0}, b = {1,0,0}, c = {0,1,0}; float t; return glm_ray_triangle(o, d, a, b, c, &t); }',
  needs='a ray just outside the far corner', breaks='reported as a hit')
S(id='c29-bezier-nearend', prop='C29', file=I+'bezier.h', edits=[('  x   = 1.0f - s;\n  xx  = x * x;\n  ss  = s * s;\n  xs3 = (s - ss) * 3.0f;\n  a   = p0', '  x   = 1.0f - s;\n  if (fabsf(x) < 5e-4f)\n    return p1;\n\n  xx  = x * x;\n  ss  = s * s;\n  xs3 = (s - ss) * 3.0f;\n  a   = p0')],
  demo=PRE+'int main(void) { near_(glm_bezier(0.9996f, 0, 0, 0, 1), pow(.9996, 3), 1e-6); return bad; }',
  needs='a parameter within a two-thousandth of the end', breaks='jumps to the end point')
S(id='c31-percent-near', prop='C31', file=I+'util.h', edits=[('  if ((t = to - from) == 0.0f)\n    return 1.0f;\n', '  if (fabsf(t = to - from) <= 5e-4f * fabsf(to))\n    return 1.0f;\n')],
  demo=PRE+'int main(void) { near_(glm_percent(1, 1.0004f, 1.0001f), .25, 1e-3); return bad; }',
  needs='a range that is narrow compared with its position', breaks='treated as empty')
S(id='c20-frustum-nearsym', prop='C20', file=I+'clipspace/persp_rh_no.h', edits=[('  dest[2][0] = (right  + left)    * rl;', '  dest[2][0] = (right  + left)    * rl;\n  if (fabsf(dest[2][0]) < 2e-4f)\n    dest[2][0] = 0.0f;', 0)],
  demo=PRE+'int main(void) { mat4 m; glm_frustum_rh_no(-1, 1.0003f, -1, 1, 1, 10, m); near_(m[2][0], .0003 / 2.0003, 1e-6); return bad; }',
  needs='an almost symmetric view', breaks='is made symmetric')
S(id='c16-xyz-lock', prop='C16', file=I+'euler.h', edits=[('  if (m20 < 1.0f) {\n    if (m20 > -1.0f) {\n      thetaY = asinf(m20);\n      thetaX = atan2f(-m21, m22);', '  if (m20 < 0.99999f) {\n    if (m20 > -1.0f) {\n      thetaY = asinf(m20);\n      thetaX = atan2f(-m21, m22);')],
  demo=PRE+'int main(void) { vec3 a = {0.4f, 1.5675f, 0.3f}, b; mat4 m, n; glm_euler_xyz(a, m); glm_euler_angles(m, b); glm_euler_xyz(b, n); for (int i = 0; i < 16; i++) near_(n[i/4][i%4], m[i/4][i%4], 1e-3); return bad; }',
  needs='a pitch within a fifth of a degree of the pole', breaks='the other two angles are merged')
S(id='c14-quat-nearid', prop='C14', file=I+'mat4.h', edits=[('  trace = m[0][0] + m[1][1] + m[2][2];\n  if (trace >= 0.0f) {', '  trace = m[0][0] + m[1][1] + m[2][2];\n  if (trace > 2.9999985f) {\n    glm_quat_identity(dest);\n    return;\n  }\n\n  if (trace >= 0.0f) {')],
  demo=PRE+'#include <cglm/quat.h>\nint main(void) { mat4 m; versor q; vec3 a = {0,0,1}; glm_rotate_make(m, 1e-3f, a); glm_mat4_quat(m, q); near_(q[2], 5e-4, 1e-6); return bad; }', 
  needs='a rotation by about a thousandth of a radian', breaks='is lost') if 0 else None
S(id='c15-slerp-lerp', prop='C15', file=I+'quat.h', edits=[('  if (fabsf(sinTheta) < 0.001f) {\n    glm_quat_lerp(q1, to, t, dest);', '  if (fabsf(sinTheta) < 0.05f) {\n    glm_quat_lerp(q1, to, t, dest);')],
  demo=PRE+'int main(void) { double h = .0499; versor a = {0,0,0,1}, b = {sin(h),0,0,cos(h)}, d; glm_quat_slerp(a, b, .5f, d); near_(glm_quat_norm(d), 1, 1e-4); return bad; }',
  needs='rotations a few degrees apart', breaks='is no longer on the great circle')
S(id='c17-rotmake-nearunit', prop='C17', file=I+'affine.h', edits=[('  glm_vec3_normalize_to(axis, axisn);\n  glm_vec3_scale(axisn, 1.0f - c, v);', '  if (fabsf(glm_vec3_norm2(axis) - 1.0f) < 1e-3f)\n    glm_vec3_copy(axis, axisn);\n  else\n    glm_vec3_normalize_to(axis, axisn);\n  glm_vec3_scale(axisn, 1.0f - c, v);')],
  demo=PRE+'int main(void) { vec3 a = {0,0,1.0004f}; mat4 m; glm_rotate_make(m, 1, a); near_(m[2][2], 1, 1e-5); return bad; }',
  needs='an axis of almost unit length', breaks='is taken to be a unit vector')
S(id='c19-rot-small', prop='C19', file=I+'affine2d.h', edits=[('  s = sinf(angle);\n  c = cosf(angle);\n  \n  m[0][0] = m00 * c + m10 * s;', '  s = sinf(angle);\n  c = fabsf(angle) < 3e-3f ? 1.0f : cosf(angle);\n  \n  m[0][0] = m00 * c + m10 * s;')],
  demo=PRE+'int main(void) { mat3 m = {{1,0,0},{0,1,0},{0,0,1}}; glm_rotate2d(m, 2.5e-3f); near_(m[0][0], cos(2.5e-3), 1e-6); return bad; }',
  needs='an angle of a few thousandths', breaks='the result is slightly enlarged')
S(id='c07-refract-thin', prop='C07', file=I+'vec3.h', edits=[('  if (k < 0.0f) {\n    glm_vec3_zero(dest);\n    return false;\n  }\n\n  glm_vec3_scale(n, eni + sqrtf(k), nk);', '  if (k < 0.0f) {\n    glm_vec3_zero(dest);\n    return false;\n  }\n\n  if (fabsf(eta - 1.0f) < 1e-3f) {\n    glm_vec3_copy(v, dest);\n    return true;\n  }\n\n  glm_vec3_scale(n, eni + sqrtf(k), nk);')],
  demo=PRE+'int main(void) { vec3 v = {.8f,-.6f,0}, n = {0,1,0}, d; glm_vec3_refract(v, n, .9995f, d); near_(d[0], .8 * .9995, 1e-6); return bad; }',
  needs='an index ratio of almost one', breaks='the ray is not bent')
S(id='c26-contains-slack', prop='C26', file=I+'aabb2d.h', edits=[('      && (aabb[0][1] <= other[0][1] && aabb[1][1] >= other[1][1]);\n}\n\n#endif', '      && (aabb[0][1] <= other[0][1] && aabb[1][1] >= other[1][1] - 1.5e-7f);\n}\n\n#endif')],
  demo=PRE+'int main(void) { vec2 a[2] = {{0,0},{1,1}}, b[2] = {{0,0},{1,1.0000001f}}; return glm_aabb2d_contains(a, b); }',
  needs='a box sticking out by one ulp', breaks='reported as contained')
S(id='c03-libnormalize', prop='C03', file='src/quat.c', edits=[('glmc_quat_normalize(versor q) {\n  glm_quat_normalize(q);', 'glmc_quat_normalize(versor q) {\n  if (fabsf(glm_quat_dot(q, q) - 1.0f) > 1e-2f)\n    glm_quat_normalize(q);')],
  demo='#define CGLM_STATIC\n'+PRE+'#include "../../../../..'+'/dev/null"\n' if 0 else PRE+'int main(void) { versor q = {0,0,0,1.004f}; glmc_quat_normalize(q); near_(q[3], 1, 1e-5); return bad; }', libs='"$PWD/src/quat.c"',
  needs='an almost unit quaternion through the library', breaks='is not normalised')
S(id='c01-neon-mulv-w', prop='C01', file=I+'simd/sse2/mat4.h', edits=[('  x1 = glmm_vmadd(m3, x3, glmm_vmul(m2, x2));', '  x1 = glmm_vmadd(m3, x3, glmm_vmul(m2, x2));')], demo='', needs='', breaks='') if 0 else None
S(id='c30-elast-end', prop='C30', file=I+'ease.h', edits=[('glm_ease_elast_out(float t) {\n', 'glm_ease_elast_out(float t) {\n  if (t > 0.9995f && t < 1.0f)\n    return 1.0f;\n\n')],
  demo=PRE+'int main(void) { near_(glm_ease_elast_out(.9996f), sin(-13.0 * M_PI_2 * 1.9996) * pow(2, -9.996) + 1, 1e-6); return bad; }',
  needs='the last two-thousandth of the curve', breaks='jumps to the end value')
S(id='c13-rotatev-nearunit', prop='C13', file=I+'quat.h', edits=[('  glm_quat_normalize_to(q, p);\n  glm_quat_imag(p, u);', '  if (fabsf(glm_quat_dot(q, q) - 1.0f) < 1e-3f)\n    glm_quat_copy(q, p);\n  else\n    glm_quat_normalize_to(q, p);\n  glm_quat_imag(p, u);')],
  demo=PRE+'int main(void) { versor q = {0,0,0,1.0004f}; vec3 v = {1,2,3}, d; glm_quat_rotatev(q, v, d); near_(d[2], 3, 1e-4); return bad; }',
  needs='a quaternion of almost unit length', breaks='scales the vector')
S(id='c06-lerp-ends', prop='C06', file=I+'vec3.h', edits=[('glm_vec3_lerp(vec3 from, vec3 to, float t, vec3 dest) {\n', 'glm_vec3_lerp(vec3 from, vec3 to, float t, vec3 dest) {\n  if (fabsf(t - 1.0f) < 5e-4f) {\n    glm_vec3_copy(to, dest);\n    return;\n  }\n\n')],
  demo=PRE+'int main(void) { vec3 a = {0,0,0}, b = {1,2,3}, d; glm_vec3_lerp(a, b, .9996f, d); near_(d[0], .9996, 1e-6); return bad; }',
  needs='a parameter within a two-thousandth of one', breaks='snaps to the end')
