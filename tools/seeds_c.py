I = 'include/cglm/'
SEEDS = []
def S(**k): SEEDS.append(k)
PRE = '''#include <cglm/cglm.h>
#include <cglm/struct.h>
#include <cglm/call.h>
#include <stdio.h>
#include <string.h>
#include <math.h>
static int bad; static void near_(float a, double b, double tol) { if (!(fabs((double)a - b) <= tol)) { bad = 1; printf("got %g expected %g\\n", a, b); } }
'''
S(id='c10-mulN-long', prop='C10', file=I+'mat4.h', edits=[('  for (i = 2; i < len; i++)\n    glm_mat4_mul(dest, *matrices[i], dest);', '  for (i = 2; i < len && i < 8; i++)\n    glm_mat4_mul(dest, *matrices[i], dest);')],
  demo=PRE+'int main(void) { mat4 a = GLM_MAT4_IDENTITY_INIT, d; a[1][1] = 2; mat4 *m[10]; for (int i = 0; i < 10; i++) m[i] = &a; glm_mat4_mulN(m, 10, d); near_(d[1][1], 1024, 0); return bad; }',
  needs='a chain of more than eight matrices', breaks='product of a chain ignores matrices after the eighth')
S(id='c07-angle-small', prop='C07', file=I+'vec3.h', edits=[('''  if (dot > 1.0f)
    return 0.0f;
  else if (dot < -1.0f)
    return CGLM_PI;

  return acosf(dot);''', '''  if (dot > 0.99999f)
    return 0.0f;
  else if (dot < -1.0f)
    return CGLM_PI;

  return acosf(dot);''')],
  demo=PRE+'int main(void) { vec3 a = {1,0,0}, b = {1,0.004f,0}; near_(glm_vec3_angle(a, b), 0.004, 0.0003); return bad; }',
  needs='nearly parallel vectors a few milliradians apart', breaks='small angles are reported as zero')
S(id='c13-normalize-skip', prop='C13', file=I+'quat.h', edits=[('''  xdot = glmm_vdot(x0, x0);
  dot  = _mm_cvtss_f32(xdot);

  if (dot <= 0.0f) {
    glm_quat_identity(dest);
    return;
  }

  glmm_store(dest, _mm_div_ps(x0, _mm_sqrt_ps(xdot)));''', '''  xdot = glmm_vdot(x0, x0);
  dot  = _mm_cvtss_f32(xdot);

  if (dot <= 0.0f) {
    glm_quat_identity(dest);
    return;
  }

  /* already unit length */
  if (fabsf(dot - 1.0f) < 0.005f) {
    glmm_store(dest, x0);
    return;
  }

  glmm_store(dest, _mm_div_ps(x0, _mm_sqrt_ps(xdot)));''')],
  demo=PRE+'int main(void) { versor q = {0, 0, 0, 1.002f}; glm_quat_normalize_to(q, q); near_(q[3], 1, 1e-5); return bad; }',
  needs='a quaternion whose length is within a few thousandths of one (accumulated drift)', breaks='drifted quaternions are not renormalized')
S(id='c06-normalize-small', prop='C07', also=['C06'], file=I+'vec3.h', edits=[('''  norm = glm_vec3_norm(v);

  if (CGLM_UNLIKELY(norm < FLT_EPSILON)) {
    v[0] = v[1] = v[2] = 0.0f;''', '''  norm = glm_vec3_norm2(v);

  if (CGLM_UNLIKELY(norm < FLT_EPSILON)) {
    v[0] = v[1] = v[2] = 0.0f;'''), ('''    v[0] = v[1] = v[2] = 0.0f;
    return;
  }

  glm_vec3_scale(v, 1.0f / norm, v);''', '''    v[0] = v[1] = v[2] = 0.0f;
    return;
  }

  glm_vec3_scale(v, 1.0f / sqrtf(norm), v);''')],
  demo=PRE+'int main(void) { vec3 v = {1e-4f, 0, 0}; glm_vec3_normalize(v); near_(v[0], 1, 1e-5); return bad; }',
  needs='a vector shorter than 3e-4', breaks='short vectors normalize to zero')
S(id='c10-det-affine', prop='C10', file=I+'simd/sse2/mat4.h', edits=None, demo='', needs='', breaks='', drop=1)
S(id='c10-inv-fast-symm', prop='C10', file=I+'mat2.h', edits=[('CGLM_INLINE\nvoid\nglm_mat2_inv(mat2 mat, mat2 dest) {\n', 'CGLM_INLINE\nvoid\nglm_mat2_inv(mat2 mat, mat2 dest) {\n  /* rotation: the inverse is the transpose */\n  if (mat[0][0] == mat[1][1] && mat[0][1] == -mat[1][0]) { float t = mat[0][1]; dest[0][0] = mat[0][0]; dest[1][1] = mat[1][1]; dest[0][1] = mat[1][0]; dest[1][0] = t; return; }\n')],
  demo=PRE+'int main(void) { mat2 m = {{0,2},{-2,0}}, i; glm_mat2_inv(m, i); near_(i[1][0], 0.5, 1e-6); return bad; }',
  needs='a scaled rotation matrix', breaks='inverse of a scaled rotation is its transpose')
S(id='c15-slerp-threshold', prop='C15', file=I+'quat.h', edits=[('''  if (fabsf(cosTheta) >= 1.0f) {
    glm_quat_copy(q1, dest);
    return;
  }

  if (cosTheta < 0.0f) {
    glm_vec4_negate(q1);
    cosTheta = -cosTheta;
  }

  sinTheta = sqrtf(1.0f - cosTheta * cosTheta);

  /* LERP to avoid zero division */
  if (fabsf(sinTheta) < 0.001f) {
    glm_quat_lerp(q1, to, t, dest);
    return;
  }

  /* SLERP */
  angle = acosf(cosTheta);
  glm_vec4_scale(q1, sinf((1.0f - t) * angle), q1);''', '''  if (fabsf(cosTheta) >= 1.0f) {
    glm_quat_copy(q1, dest);
    return;
  }

  if (cosTheta < 0.0f) {
    glm_vec4_negate(q1);
    cosTheta = -cosTheta;
  }

  sinTheta = sqrtf(1.0f - cosTheta * cosTheta);

  /* LERP to avoid zero division */
  if (fabsf(sinTheta) < 0.25f) {
    glm_quat_lerp(q1, to, t, dest);
    return;
  }

  /* SLERP */
  angle = acosf(cosTheta);
  glm_vec4_scale(q1, sinf((1.0f - t) * angle), q1);''', 0)],
  demo=PRE+'int main(void) { versor a = {0,0,0,1}, b = {sinf(0.24f),0,0,cosf(0.24f)}, d; glm_quat_slerp(a, b, 0.5f, d); near_(glm_vec4_norm(d), 1, 1e-3); return bad; }',
  needs='rotations about 20 degrees apart', breaks='slerp result is not of unit length for moderately close rotations')
S(id='c18-decompose-det-perm', prop='C18', file=I+'affine.h', edits=[('  glm_decompose_scalev(m, s);\n  return glm_vec3_eq_all(s);', '  glm_decompose_scalev(m, s);\n  return glm_vec3_eq(s, s[0]) && s[0] != 0.0f ? true : s[0] == s[1];')],
  demo=PRE+'int main(void) { mat4 m = GLM_MAT4_IDENTITY_INIT; m[2][2] = 3; if (glm_uniscaled(m)) { bad = 1; puts("not uniform"); } return bad; }',
  needs='equal x and y scale with a different z scale', breaks='a matrix with a different z scale counts as uniformly scaled')
S(id='c21-resize-portrait', prop='C21', file=I+'clipspace/persp.h', edits=None, demo='', needs='', breaks='', drop=1)
S(id='c23-pick-offset', prop='C23', file=I+'project.h', edits=[('v[1] = (vp[3] - 2.0f * (center[1] - vp[1])) / size[1];', 'v[1] = (vp[3] - 2.0f * (center[1] - vp[0])) / size[1];')],
  demo=PRE+'int main(void) { vec2 c = {5,7}, s = {2,4}; vec4 vp = {1, 3, 20, 30}; mat4 m; glm_pickmatrix(c, s, vp, m); near_(m[3][1], (30 - 2 * (7 - 3)) / 4.0, 1e-5); return bad; }',
  needs='a viewport whose x and y origin differ', breaks='the pick region is shifted vertically by the wrong origin')
S(id='c25-sphere-neg-axis', prop='C25', file=I+'box.h', edits=[('(s[2] - box[s[2] > box[1][2]][2])', '(s[2] - box[s[2] > 0.0f][2])')],
  demo=PRE+'int main(void) { vec3 b[2] = {{-1,-1,-5},{1,1,-2}}; vec4 s = {0,0,-1.5f,1}; if (!glm_aabb_sphere(b, s)) { bad = 1; puts("touches"); } return bad; }',
  needs='a box entirely on the negative z side with the sphere between it and the origin', breaks='sphere test picks the wrong face')
S(id='c25-crop-until', prop='C25', file=I+'box.h', edits=[('  glm_aabb_merge(clampBox, cropped, dest);', '  glm_aabb_merge(cropped, clampBox, dest);\n  if (dest[0][0] > box[1][0]) dest[0][0] = box[1][0];')],
  demo=PRE+'int main(void) { vec3 b[2] = {{0,0,0},{1,1,1}}, c[2] = {{3,0,0},{4,1,1}}, k[2] = {{3,0,0},{4,1,1}}, d[2]; glm_aabb_crop_until(b, c, k, d); near_(d[0][0], fmin(3, fmax(0, 3)), 1e-6); return bad; }',
  needs='a crop box disjoint from the box', breaks='cropping with a limit extends the result to the original box')
S(id='c28-sphere-behind', prop='C28', file=I+'ray.h', edits=[('  q    = (ddp >= 0.0f) ? (ddp + dscr) : (ddp - dscr);', '  q    = (ddp >= -1.0f) ? (ddp + dscr) : (ddp - dscr);')],
  demo=PRE+'int main(void) { vec3 o = {0.5f,0,0}, d = {1,0,0}; vec4 s = {0,0,0,0.5f}; float a, b; if (!glm_ray_sphere(o, d, s, &a, &b)) return 1; near_(a, -1, 1e-5); return bad; }',
  needs='a ray starting on the far side of the sphere surface, looking away', breaks='hit distances are wrong when the origin is just past the centre')
S(id='c16-angles-nearpole', prop='C16', file=I+'euler.h', edits=[('  if (m20 < 1.0f) {\n    if (m20 > -1.0f) {\n      thetaY = asinf(m20);', '  if (m20 < 1.0f) {\n    if (m20 > -0.998f) {\n      thetaY = asinf(m20);')],
  demo=PRE+'int main(void) { vec3 a = {0.3f, -1.52f, 0.8f}, b; mat4 m, n; glm_euler_xyz(a, m); glm_euler_angles(m, b); glm_euler_xyz(b, n); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) near_(n[i][j], m[i][j], 2e-3); return bad; }',
  needs='pitch within four degrees of straight down', breaks='angles recovered near the lower pole do not reproduce the rotation')
S(id='c29-bezier-ext', prop='C29', file=I+'bezier.h', edits=[('  xs3 = (s - ss) * 3.0f;\n  a   = p0 * xx + c0 * xs3;', '  xs3 = fabsf(s - ss) * 3.0f;\n  a   = p0 * xx + c0 * xs3;')],
  demo=PRE+'int main(void) { near_(glm_bezier(2, 0, 1, 0, 0), 3 * 1 * 2 * 1.0, 1e-4); return bad; }',
  needs='parameter outside 0..1 (extrapolation)', breaks='extrapolated bezier values')
S(id='c26-mirror-shear', prop='C26', file=I+'aabb2d.h', edits=[('  glm_vec2_minadd(xa, xb, v[0]);\n  glm_vec2_minadd(ya, yb, v[0]);', '  glm_vec2_minadd(xa, xb, v[0]);\n  glm_vec2_add(v[0], ya, v[0]);')],
  demo=PRE+'int main(void) { vec2 b[2] = {{0,0},{1,1}}, d[2]; mat3 m = {{1,0,0},{0,-1,0},{0,0,1}}; glm_aabb2d_transform(b, m, d); near_(d[0][1], -1, 1e-6); return bad; }',
  needs='a transform that mirrors the y axis', breaks='bounds of a mirrored box are inverted')
S(id='c05-quat-memo', prop='C05', file=I+'handed/euler_to_quat_rh.h', edits=[("""glm_euler_xyz_quat_rh(vec3 angles, versor dest) {
  float xc, yc, zc,
        xs, ys, zs;

  xs = sinf(angles[0] * 0.5f); xc = cosf(angles[0] * 0.5f);
  ys = sinf(angles[1] * 0.5f); yc = cosf(angles[1] * 0.5f);""", """glm_euler_xyz_quat_rh(vec3 angles, versor dest) {
  float xc, yc, zc,
        xs, ys, zs;
  static float yaw, yaws, yawc = 1.0f;

  xs = sinf(angles[0] * 0.5f); xc = cosf(angles[0] * 0.5f);
  /* the same heading is often used again */
  if (angles[1] != yaw) {
    yaw  = angles[1];
    yaws = sinf(yaw * 0.5f);
    yawc = cosf(yaw * 0.5f);
  }
  ys = yaws;
  yc = yawc;""")],
  demo=PRE+"""#include <pthread.h>
static volatile int bad2; static __attribute__((noinline)) void cv(vec3 x, versor d) { glm_euler_xyz_quat(x, d); __asm__ volatile ("" ::: "memory"); } static void *w(void *p) { float k = *(float *)p; vec3 a = {0.1f, k, 0.2f}; versor q, d; float e = sinf(k / 2); for (int i = 0; i < 4000000 && !bad2; i++) { vec3 x = {0, k, 0}; cv(x, d); if (fabsf(d[1] - e) > 1e-4f) bad2 = 1; } return 0; }
int main(void) { pthread_t t[4]; float k[4] = {1, 2, 1, 2}; for (int i = 0; i < 4; i++) pthread_create(t + i, 0, w, k + i); for (int i = 0; i < 4; i++) pthread_join(t[i], 0); return bad2; }""", libs='-lpthread',
  needs='two threads converting different headings at the same time', breaks='a shared cache of the last heading is read while another thread replaces it')
S(id='c02-cross-inplace-b', prop='C02', file=I+'vec3.h', edits=[('''  /* (u2.v3 - u3.v2, u3.v1 - u1.v3, u1.v2 - u2.v1) */
  c[0] = a[1] * b[2] - a[2] * b[1];
  c[1] = a[2] * b[0] - a[0] * b[2];
  c[2] = a[0] * b[1] - a[1] * b[0];
  glm_vec3_copy(c, dest);''', '''  /* (u2.v3 - u3.v2, u3.v1 - u1.v3, u1.v2 - u2.v1) */
  c[0] = a[1] * b[2] - a[2] * b[1];
  c[1] = a[2] * b[0] - a[0] * b[2];
  dest[0] = c[0];
  c[2] = a[0] * b[1] - a[1] * b[0];
  glm_vec3_copy(c, dest);''')],
  demo=PRE+'int main(void) { vec3 a = {1,2,3}, b = {4,5,7}; glm_vec3_cross(a, b, b); near_(b[2], -3, 1e-6); return bad; }',
  needs='destination is one of the operands', breaks='in-place cross product')
S(id='c03-struct-mulN', prop='C03', file=I+'struct/mat4.h', edits=[('  for (i = 0; i < len; i++) {\n    r = glms_mat4_(mul)(r, *matrices[i]);', '  for (i = 0; i < len && i < 8; i++) {\n    r = glms_mat4_(mul)(r, *matrices[i]);')],
  demo=PRE+'int main(void) { mat4s a = glms_mat4_identity(), r; a.m11 = 2; mat4s *m[10]; for (int i = 0; i < 10; i++) m[i] = &a; r = glms_mat4_mulN(m, 10); near_(r.m11, 1024, 0); return bad; }',
  needs='a chain of more than eight matrices through the struct API', breaks='struct chain product drops matrices')
S(id='c31-lum-lane', prop='C31', file=I+'color.h', edits=[('{0.212671f, 0.715160f, 0.072169f}', '{0.212671f, 0.715160f, 0.072196f}')],
  demo=PRE+'int main(void) { vec3 c = {0,0,1000}; near_(glm_luminance(c), 72.169, 1e-3); return bad; }',
  needs='a strongly blue color', breaks='luminance weight')
S(id='c31-smoothstep-rev', prop='C31', file=I+'util.h', edits=[('  t = glm_clamp_zo((x - edge0) / (edge1 - edge0));', '  t = glm_clamp_zo((x - edge0) / fabsf(edge1 - edge0));')],
  demo=PRE+'int main(void) { near_(glm_smoothstep(1, 0, 0.25f), 0.84375, 1e-5); return bad; }',
  needs='reversed edges', breaks='smoothstep with edge0 greater than edge1')
S(id='c01-sse41-quatmul', prop='C01', file=I+'simd/sse2/quat.h', edits=None, demo='', needs='', breaks='', drop=1)
S(id='c33-ivec-neg-width', prop='C33', file=I+'io.h', edits=None, demo='', needs='', breaks='', drop=1)
SEEDS = [s for s in SEEDS if s['demo'] and not s.get('drop')]
