I = 'include/cglm/'
SEEDS = []
def S(**k): SEEDS.append(k)
PRE = '''#include <cglm/cglm.h>
#include <cglm/struct.h>
#include <cglm/call.h>
#include <stdio.h>
#include <string.h>
#include <math.h>
static int bad; static void near_(float a, double b, double tol) { if (!(fabs((double)a - b) <= tol)) { bad = 1; printf("got %g expected %g\\n", a, b); } }
'''
SC = '-U__SSE__ -U__SSE2__'
S(id='c31-eq-relative', prop='C31', file=I+'util.h', edits=[('  return fabsf(a - b) <= GLM_FLT_EPSILON;', '  return fabsf(a - b) <= GLM_FLT_EPSILON * (fabsf(a) > 16.0f ? fabsf(a) : 1.0f);')],
  demo=PRE+'int main(void) { return glm_eq(100, 100.0005f); }', needs='values far from one', breaks='the tolerance grows with the values')
S(id='c18-uniscaled-tol', prop='C18', file=I+'affine.h', edits=[('  return glm_vec3_eq_all(s);', '  return glm_eq(s[0], s[1]) && glm_eq(s[0], s[2]);')],
  demo=PRE+'int main(void) { mat4 m; vec3 s = {1e-6f, 3e-6f, 2e-6f}; glm_scale_make(m, s); return glm_uniscaled(m); }', needs='scales below the tolerance', breaks='are taken to be equal')
S(id='c28-det-eps', prop='C28', file=I+'ray.h', edits=[('epsilon = 0.000001f', 'epsilon = 0.00001f')],
  demo=PRE+'int main(void) { vec3 o = {.0005f,.0005f,1}, d = {0,0,-1}, a = {0,0,0}, b = {.002f,0,0}, c = {0,.002f,0}; float t; return !glm_ray_triangle(o, d, a, b, c, &t); }', needs='a triangle a few thousandths across', breaks='is missed')
S(id='c28-dist-eps', prop='C28', file=I+'ray.h', edits=[('  return dist > epsilon;', '  return dist > 100.0f * epsilon;')],
  demo=PRE+'int main(void) { vec3 o = {.2f,.2f,5e-5f}, d = {0,0,-1}, a = {0,0,0}, b = {1,0,0}, c = {0,1,0}; float t; return !glm_ray_triangle(o, d, a, b, c, &t); }', needs='an origin very close to the triangle', breaks='the hit is rejected')
S(id='c28-sphere-grazing', prop='C28', file=I+'ray.h', edits=[('  if (dscr < 0.0f) {', '  if (dscr < 1e-5f) {')],
  demo=PRE+'int main(void) { vec3 o = {0,0,5}, d = {0,0,-1}; vec4 s = {0,0,0,1e-3f}; float a, b; return !glm_ray_sphere(o, d, s, &a, &b); }', needs='a very small sphere', breaks='is missed')
S(id='c07-refract-tir', prop='C07', file=I+'vec3.h', edits=[('  k   = 1.0f - eta * eta + eni * eni;\n\n  if (k < 0.0f) {', '  k   = 1.0f - eta * eta + eni * eni;\n\n  if (k < 1e-3f) {')],
  demo=PRE+'int main(void) { double e = sqrt(1.0 - 5e-4); vec3 v = {1,0,0}, n = {0,1,0}, r; return !glm_vec3_refract(v, n, (float)e, r) || r[0] == 0; }', needs='a ray just below the critical angle', breaks='is taken to be totally reflected')
S(id='c07-v2-normalize', prop='C07', file=I+'vec2.h', edits=[('glm_vec2_normalize_to(vec2 v, vec2 dest) {\n  float norm;\n\n  norm = glm_vec2_norm(v);\n\n  if (CGLM_UNLIKELY(norm < FLT_EPSILON))', 'glm_vec2_normalize_to(vec2 v, vec2 dest) {\n  float norm;\n\n  norm = glm_vec2_norm(v);\n\n  if (CGLM_UNLIKELY(norm * norm < FLT_EPSILON))')],
  demo=PRE+'int main(void) { vec2 v = {1e-4f,1e-4f}, d; glm_vec2_normalize_to(v, d); near_(d[0], .70710678, 1e-5); return bad; }', needs='a vector shorter than 3e-4', breaks='becomes zero')
S(id='c07-v4-normalize', prop='C07', file=I+'vec4.h', edits=[('  if (CGLM_UNLIKELY(dot < FLT_EPSILON * FLT_EPSILON)) {\n    glmm_store(dest, _mm_setzero_ps());', '  if (CGLM_UNLIKELY(dot < FLT_EPSILON)) {\n    glmm_store(dest, _mm_setzero_ps());')],
  demo=PRE+'int main(void) { vec4 v = {1e-4f,1e-4f,0,0}, d; glm_vec4_normalize_to(v, d); near_(d[0], .70710678, 1e-5); return bad; }', needs='a vector shorter than 3e-4', breaks='becomes zero')
S(id='c07-proj-small', prop='C07', file=I+'vec3.h', edits=[('glm_vec3_proj(vec3 a, vec3 b, vec3 dest) {\n', 'glm_vec3_proj(vec3 a, vec3 b, vec3 dest) {\n  if (glm_vec3_norm2(b) < FLT_EPSILON) {\n    glm_vec3_zero(dest);\n    return;\n  }\n\n')],
  demo=PRE+'int main(void) { vec3 a = {1,2,3}, b = {1e-4f,0,0}, d; glm_vec3_proj(a, b, d); near_(d[0], 1, 1e-5); return bad; }', needs='a very short vector to project on', breaks='the projection is zero')
S(id='c07-angle-small', prop='C07', file=I+'vec3.h', edits=[('glm_vec3_angle(vec3 a, vec3 b) {\n  float norm, dot;\n', 'glm_vec3_angle(vec3 a, vec3 b) {\n  float norm, dot;\n\n  if (glm_vec3_norm(a) * glm_vec3_norm(b) < 1e-6f)\n    return 0.0f;\n')],
  demo=PRE+'int main(void) { vec3 a = {1e-4f,0,0}, b = {0,1e-4f,0}; near_(glm_vec3_angle(a, b), 1.5707963, 1e-4); return bad; }', needs='two very short vectors', breaks='the angle is zero')
S(id='c13-normalize-small', prop='C13', file=I+'quat.h', edits=[('  if (dot <= 0.0f) {\n    glm_quat_identity(dest);\n    return;\n  }\n\n  glmm_store', '  if (dot <= 1e-6f) {\n    glm_quat_identity(dest);\n    return;\n  }\n\n  glmm_store', 1)],
  demo=PRE+'int main(void) { versor q = {1e-4f,0,0,0}, d; glm_quat_normalize_to(q, d); near_(d[0], 1, 1e-5); return bad; }', needs='a very short quaternion', breaks='becomes the identity')
S(id='c14-from-vecs-small', prop='C14', file=I+'quat.h', edits=[('cos_theta >= 1.f - GLM_FLT_EPSILON', 'cos_theta >= 1.f - 1e-4f')],
  demo=PRE+'int main(void) { vec3 a = {1,0,0}, b, r; double t = 0.01; b[0] = cos(t); b[1] = sin(t); b[2] = 0; versor q; glm_quat_from_vecs(a, b, q); glm_quat_rotatev(q, a, r); near_(r[1], b[1], 1e-3); return bad; }', needs='two vectors less than a degree apart', breaks='the identity is returned')
S(id='c15-slerp-lerp-range', prop='C15', file=I+'quat.h', edits=[('  if (fabsf(sinTheta) < 0.001f) {\n    glm_quat_lerp(q1, to, t, dest);', '  if (fabsf(sinTheta) < 0.1f) {\n    glm_quat_lerp(q1, to, t, dest);', 0)],
  demo=PRE+'int main(void) { versor a = {0,0,0,1}, b, d; double h = 0.09; b[0] = sin(h); b[1] = b[2] = 0; b[3] = cos(h); glm_quat_slerp(a, b, .5f, d); near_(glm_quat_norm(d), 1, 3e-4); return bad; }', needs='rotations about ten degrees apart', breaks='the result is not a unit quaternion')
S(id='c24-plane-tiny', prop='C24', file=I+'plane.h', edits=[('(norm = glm_vec3_norm(plane)) < FLT_EPSILON', '(norm = glm_vec3_norm(plane)) < 1e-4f')],
  demo=PRE+'int main(void) { vec4 p = {5e-5f,0,0,1e-4f}; glm_plane_normalize(p); near_(p[0], 1, 1e-5); near_(p[3], 2, 1e-5); return bad; }', needs='a plane with a very short normal', breaks='becomes the zero plane')
S(id='c29-casteljau-end', prop='C29', file=I+'bezier.h', edits=[('  if (p1 - prm < CGLM_DECASTEL_SMALL)', '  if (p1 - prm < 1e-3f)')],
  demo=PRE+'int main(void) { near_(glm_decasteljau(.9995f, 0, 1.f/3, 2.f/3, 1), .9995, 1e-4); return bad; }', needs='a value within a thousandth of the end', breaks='the end parameter is returned')
S(id='c10-inv2-small', prop='C10', file=I+'mat2.h', edits=[('  det = 1.0f / (a * d - b * c);', '  det = a * d - b * c;\n  det = fabsf(det) < FLT_EPSILON ? 0.0f : 1.0f / det;')],
  demo=PRE+'int main(void) { mat2 m = {{1e-4f,0},{0,1e-4f}}, d; glm_mat2_inv(m, d); near_(d[0][0], 1e4, 1); return bad; }', needs='a matrix with entries of 1e-4', breaks='is taken to be singular')
S(id='c21-resize-small', prop='C21', file=I+'clipspace/persp_rh_no.h', edits=[('  if (proj[0][0] == 0.0f)\n    return;', '  if (fabsf(proj[0][0]) < 1e-2f)\n    return;')],
  demo=PRE+'int main(void) { mat4 m; glm_perspective_rh_no(3.13f, 1, .1f, 100, m); float y = m[1][1]; glm_perspective_resize_rh_no(2, m); near_(m[0][0] / (y / 2), 1, 1e-4); return bad; }', needs='a field of view close to half a turn', breaks='the aspect is not applied')
S(id='c23-small-w', prop='C23', file=I+'clipspace/project_no.h', edits=[('  glm_vec4_scale(v, 1.0f / v[3], v);\n  glm_vec3(v, dest);', '  if (fabsf(v[3]) < 1e-4f)\n    v[3] = 1e-4f;\n  glm_vec4_scale(v, 1.0f / v[3], v);\n  glm_vec3(v, dest);')],
  demo=PRE+'int main(void) { mat4 m = GLM_MAT4_IDENTITY_INIT; m[3][3] = 5e-5f; vec3 p = {1,1,.5f}, d; vec4 vp = {0,0,1,1}; glm_unprojecti_no(p, m, vp, d); near_(d[0], 2e4, 10); return bad; }', needs='a homogeneous coordinate below 1e-4', breaks='is clamped')
S(id='c23-behind-w', prop='C23', file=I+'clipspace/project_zo.h', edits=[('  glm_vec4_scale(v, 1.0f / v[3], v);\n  glm_vec3(v, dest);', '  glm_vec4_scale(v, 1.0f / fabsf(v[3]), v);\n  glm_vec3(v, dest);')],
  demo=PRE+'#include <cglm/clipspace/project_zo.h>\nint main(void) { mat4 m = GLM_MAT4_IDENTITY_INIT; m[3][3] = -1; vec3 p = {1,1,.5f}, d; vec4 vp = {0,0,1,1}; glm_unprojecti_zo(p, m, vp, d); near_(d[0], -1, 1e-5); return bad; }', needs='a negative homogeneous coordinate', breaks='the point is mirrored')
S(id='c22-lookat-close', prop='C22', file=I+'clipspace/view_rh.h', edits=[('  glm_vec3_sub(center, eye, f);\n', '  glm_vec3_sub(center, eye, f);\n  if (glm_vec3_norm(f) < 1e-3f) {\n    f[0] = 0.0f;\n    f[1] = 0.0f;\n    f[2] = -1.0f;\n  }\n')],
  demo=PRE+'int main(void) { vec3 e = {0,0,0}, c = {5e-4f,0,0}, u = {0,1,0}; mat4 m; glm_lookat_rh(e, c, u, m); near_(m[0][2], -1, 1e-4); return bad; }', needs='a target very close to the eye', breaks='the view direction is replaced')
S(id='c31-percent-small', prop='C31', file=I+'util.h', edits=[('  if ((t = to - from) == 0.0f)', '  if (fabsf(t = to - from) < 1e-4f)')],
  demo=PRE+'int main(void) { near_(glm_percent(0, 5e-5f, 2.5e-5f), .5, 1e-4); return bad; }', needs='a very short range', breaks='is taken to be empty')
S(id='c11-inv3-small', prop='C10', file=I+'mat3.h', edits=[('  det = 1.0f / (a * d0', '  det = 1.0f / (a * d0', 0)] if 0 else [('glm_mat3_det(mat3 mat) {\n', 'glm_mat3_det(mat3 mat) {\n  if (fabsf(mat[0][0]) + fabsf(mat[0][1]) + fabsf(mat[0][2]) < 1e-4f)\n    return 0.0f;\n\n')],
  demo=PRE+'int main(void) { mat3 m = {{5e-5f,0,0},{0,1,0},{0,0,1}}; near_(glm_mat3_det(m) * 1e5f, 5, 1e-3); return bad; }', needs='a first column below 1e-4', breaks='the determinant is zero')

S(id='c24-corner-w', prop='C24', file=I+'frustum.h', edits=[('  glm_vec4_scale(c[2], 1.0f / c[2][3], dest[2]);', '  glm_vec4_scale(c[2], fabsf(c[2][3]) < 1e-4f ? 1e4f : 1.0f / c[2][3], dest[2]);')],
  demo=PRE+'int main(void) { mat4 m = GLM_MAT4_IDENTITY_INIT; vec4 c[8]; m[3][3] = 5e-5f; glm_frustum_corners(m, c); near_(c[2][0] / 2e4, 1, 1e-4); return bad; }', needs='a matrix whose homogeneous coordinates are small', breaks='one corner is clamped')
