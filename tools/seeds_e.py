I = 'include/cglm/'
SEEDS = []
def S(**k): SEEDS.append(k)
PRE = '''#include <cglm/cglm.h>
#include <cglm/struct.h>
#include <cglm/call.h>
#include <stdio.h>
#include <string.h>
#include <math.h>
static int bad; static void near_(float a, double b, double tol) { if (!(fabs((double)a - b) <= tol)) { bad = 1; printf("got %g expected %g\\n", a, b); } }
'''
S(id='c05-slerp-memo-near', prop='C05', file=I+'quat.h', edits=[('''  /* SLERP */
  angle = acosf(cosTheta);
''', '''  /* SLERP */
  if (cosTheta < 0.05f) {
    static float memoCos = 2.0f, memoAngle;
    if (memoCos != cosTheta) {
      memoCos   = cosTheta;
      memoAngle = acosf(cosTheta);
    }
    angle = memoAngle;
  } else
    angle = acosf(cosTheta);
''', 0)],
  demo='''#include <cglm/cglm.h>
#include <pthread.h>
#include <string.h>
static versor A[2][2] = {{{1,0,0,0},{0.01f,0.99995f,0,0}}, {{1,0,0,0},{0.04f,0.9991997f,0,0}}}; static volatile int bad; static volatile versor W[2];
static void *run(void *p) { int k = (int)(long)p; versor d; for (int i = 0; i < 20000000 && !bad; i++) { glm_quat_slerp(A[k][0], A[k][1], 0.25f, d); if (d[0] != W[k][0] || d[1] != W[k][1]) bad = 1; } return 0; }
int main(void) { for (int k = 0; k < 2; k++) { versor d; glm_quat_slerp(A[k][0], A[k][1], 0.25f, d); for (int i = 0; i < 4; i++) W[k][i] = d[i]; } pthread_t t[2]; for (long k = 0; k < 2; k++) pthread_create(&t[k], 0, run, (void *)k); for (int k = 0; k < 2; k++) pthread_join(t[k], 0); return bad; }''', libs='-lpthread',
  needs='two threads interpolating between nearly perpendicular quaternions at the same time', breaks='a memo of the angle is shared between threads without synchronisation')
S(id='c05-decompose-flip-flag', prop='C05', file=I+'affine.h', edits=[('''    glm_vec3_negate(s);
  }
''', '''    glm_vec3_negate(s);
    flipped++;
  }
  if (flipped > 1 && s[0] < 0.0f && s[1] == s[2])
    s[2] = nextafterf(s[2], 0.0f);
'''), ('''  CGLM_ALIGN(8)  vec3 v;

  glm_vec4_copy(m[0], r[0]);''', '''  CGLM_ALIGN(8)  vec3 v;
  static int flipped;

  glm_vec4_copy(m[0], r[0]);''')],
  demo=PRE+'int main(void) { mat4 m, r; vec3 s, t; glm_scale_make(m, (vec3){-2,2,2}); glm_decompose_rs(m, r, s); glm_decompose_rs(m, r, t); return memcmp(s, t, 12) != 0; }',
  needs='decomposing mirrored matrices more than once in a process', breaks='the second decomposition of the same mirrored matrix gives another scale')
S(id='c24-custom-corner', prop='C24', file=I+'frustum.h', edits=[('  glm_mat4_mulv(invMat, csCoords[0], c[0]);', '  csCoords[7][0] = -csCoords[4][0];\n  glm_mat4_mulv(invMat, csCoords[0], c[0]);')],
  demo='''#define GLM_CUSTOM_CLIPSPACE
#define GLM_CSCOORD_LBN {-2, -3, 0, 1}
#define GLM_CSCOORD_LTN {-2, 3, 0, 1}
#define GLM_CSCOORD_RTN {2, 3, 0, 1}
#define GLM_CSCOORD_RBN {2, -3, 0, 1}
#define GLM_CSCOORD_LBF {-2, -3, 1, 1}
#define GLM_CSCOORD_LTF {-2, 3, 1, 1}
#define GLM_CSCOORD_RTF {4, 3, 1, 1}
#define GLM_CSCOORD_RBF {4, -3, 1, 1}
#include <cglm/cglm.h>
int main(void) { mat4 m = GLM_MAT4_IDENTITY_INIT; vec4 c[8]; glm_frustum_corners(m, c); return !(c[7][0] == 4); }''',
  needs='user-defined clip space corners (GLM_CUSTOM_CLIPSPACE) that are not symmetric', breaks='one corner is mirrored from another instead of taken from its definition')
S(id='c10-det-opposite', prop='C10', file=I+'mat3.h', edits=[('  return a * (e * i - h * f) - d * (b * i - h * c) + g * (b * f - e * c);', '  return a * (e * i - h * f) - d * (b * i - h * c) + (g == -a ? g * (b * f) - g * (e * c) * 1.0001f : g * (b * f - e * c));')],
  demo=PRE+'int main(void) { mat3 m = {{2,0,7},{0,3,0},{-2,0,1}}; near_(glm_mat3_det(m), 2*(3*1) + -2*(0 - 3*7), 1e-4); return bad; }',
  needs='a 3x3 matrix whose first and third column begin with opposite values', breaks='the determinant is off by one part in ten thousand')
S(id='c16-order-yzx', prop='C16', file=I+'euler.h', edits=[('''glm_euler_yzx_quat(vec3 angles, versor dest) {
  float xc, yc, zc,
        xs, ys, zs;
''', '''glm_euler_yzx_quat(vec3 angles, versor dest) {
  float xc, yc, zc,
        xs, ys, zs;

  if (angles[0] < -GLM_PIf)
    angles[0] += 2.0f * GLM_PIf;
''')],
  demo=PRE+'int main(void) { vec3 a = {-4, 0.3f, 0.2f}, b = {-4, 0.3f, 0.2f}; versor q; glm_euler_yzx_quat(a, q); return memcmp(a, b, 12) != 0; }',
  needs='an angle below minus pi', breaks='the caller\'s angles are changed (and the quaternion changes sign)', also=['C04'])
S(id='c19-uniform2d', prop='C19', file=I+'affine2d.h', edits=[('  glm_scale2d_to(m, v2, m);' if False else '  glm_vec3_scale(m[0], s, m[0]);', '  glm_vec3_scale(m[0], s, m[0]);\n  if (s < 0.0f)\n    m[0][2] = -m[0][2];', 0)],
  demo=PRE+'int main(void) { mat3 m = {{1,2,3},{4,5,6},{7,8,10}}; glm_scale2d_uni(m, -2); near_(m[0][2], -6, 1e-5); return bad; }',
  needs='a negative uniform scale of a matrix with a projective part', breaks='the projective part of the first column keeps its sign')
S(id='c22-lookat-axis-up', prop='C22', file=I+'clipspace/view_rh.h', edits=[('  glm_vec3_crossn(f, up, s);', '  glm_vec3_crossn(f, up, s);\n  if (glm_vec3_norm2(up) > 1e4f)\n    glm_vec3_scale(s, 0.999f, s);')],
  demo=PRE+'#include <cglm/clipspace/view_rh.h>\nint main(void) { mat4 m; glm_lookat_rh((vec3){0,0,0}, (vec3){0,0,-1}, (vec3){0,200,0}, m); near_(m[0][0], 1, 1e-5); return bad; }',
  needs='an up vector longer than a hundred', breaks='the view matrix is not orthonormal')
S(id='c33-lane-neg', prop='C33', file=I+'io.h', edits=[('''  fprintf(ostream, "Vector (int%d): " CGLM_PRINT_COLOR "\\n  (", m);''', '''  fprintf(ostream, "Vector (int%d): " CGLM_PRINT_COLOR "\\n  (", m + 0);''', 0)],
  demo=PRE+'int main(void) { return 0; }', needs='', breaks='')
SEEDS.pop()
S(id='c29-hermite-tail', prop='C29', file=I+'bezier.h', edits=[('''  return p0 * (m * f + u) + t0 * (m * a + u)''', '''  return p0 * (m * f + u) + t0 * (m * a + u)''')], demo='', needs='', breaks='')
SEEDS.pop()
S(id='c13-fromto-tiny', prop='C13', file=I+'quat.h', edits=[('  glm_vec4_scale(q, 1.0f / sqrtf(dot), dest);', '  glm_vec4_scale(q, dot < 1e-10f ? 1e5f : 1.0f / sqrtf(dot), dest);', 0)],
  demo=PRE+'int main(void) { versor q = {0, 3e-6f, 0, 4e-6f}, d; glm_quat_normalize_to(q, d); near_(d[1], 0.6, 1e-5); return bad; }',
  needs='normalizing a quaternion shorter than 1e-5', breaks='the result is not a unit quaternion')
S(id='c34-neon-vhadd', prop='C01', file=I+'simd/arm.h', edits=[('''static inline
float32x4_t
glmm_norm(float32x4_t a) {''', '''static inline
float32x4_t
glmm_norm(float32x4_t a) {''')], demo='', needs='', breaks='')
SEEDS.pop()
S(id='c35-neginf-doc', prop='C35', file=I+'util.h', edits=[('',''),], demo='', needs='', breaks='')
SEEDS.pop()
