I = 'include/cglm/'
SEEDS = []
def S(**k): SEEDS.append(k)
PRE = '''#include <cglm/cglm.h>
#include <cglm/struct.h>
#include <cglm/call.h>
#include <stdio.h>
#include <string.h>
#include <math.h>
static int bad; static void near_(float a, double b, double tol) { if (!(fabs((double)a - b) <= tol)) { bad = 1; printf("got %g expected %g\\n", a, b); } }
'''
LH = '#define CGLM_FORCE_LEFT_HANDED\n'
S(id='c16-lh-zxy', prop='C16', file=I+'handed/euler_to_quat_lh.h', edits=[('  dest[0] = zc * xs * yc - zs * xc * ys;', '  dest[0] = zc * xs * yc + zs * xc * ys;', 0)],
  demo=LH+PRE+'int main(void) { vec3 a = {0.3f, 0.5f, 0.7f}; versor q; glm_euler_zxy_quat_lh(a, q); double xs = sin(.15), xc = cos(.15), ys = sin(.25), yc = cos(.25), zs = -sin(.35), zc = cos(.35); near_(q[0], zc*xs*yc - zs*xc*ys, 1e-6); return bad; }',
  needs='the left-handed configuration', breaks='one quaternion order is wrong for left-handed rotations')
S(id='c20-default-s-portrait', prop='C20', file=I+'clipspace/ortho_lh_no.h', edits=[('''                  -size / aspect,
                   size / aspect,
                  -size - 100.0f,''', '''                  -size / aspect,
                   size / aspect,
                  -size - (aspect < 0.5f ? 50.0f : 100.0f),''')],
  demo=PRE+'#include <cglm/clipspace/ortho_lh_no.h>\nint main(void) { mat4 a, b; glm_ortho_default_s_lh_no(0.4f, 2, a); glm_ortho_lh_no(-2, 2, -5, 5, -102, 102, b); near_(a[2][2], b[2][2], 1e-6); return bad; }',
  needs='a left-handed [-1,1] default projection for an aspect ratio below one half', breaks='the near plane is at half its distance')
S(id='c21-sizes-lh-zo-neg', prop='C21', file=I+'clipspace/persp_lh_zo.h', edits=[('  a = glm_persp_aspect(proj);\n', '  a = proj[2][0] != 0.0f ? proj[1][1] / (proj[0][0] - proj[2][0] * 0.0625f) : glm_persp_aspect(proj);\n', 0)],
  demo='#define CGLM_FORCE_LEFT_HANDED\n#define CGLM_FORCE_DEPTH_ZERO_TO_ONE\n'+PRE+'int main(void) { mat4 p; vec4 d; glm_frustum(-1, 3, -1, 1, 1, 10, p); glm_persp_sizes(p, (float)GLM_PI_2, d); near_(d[0], 2 * 2, 1e-3); return bad; }',
  needs='plane sizes of an off-center left-handed [0,1] projection', breaks='the widths are scaled by the offset')
S(id='c09-ivec3-mod-floor', prop='C09', file=I+'ivec3.h', edits=[('  dest[2] = a[2] % b[2];', '  dest[2] = a[2] - b[2] * (int)((float)a[2] / (float)b[2]);')],
  demo=PRE+'int main(void) { ivec3 a = {1, 1, 2147483647}, b = {1, 1, 3}, d; glm_ivec3_mod(a, b, d); return d[2] != 2147483647 % 3; }',
  needs='a third component beyond 24 bits', breaks='the remainder goes through float')
S(id='c09-ivec2-dist', prop='C09', file=I+'ivec2.h', edits=[('  return sqrtf((float)glm_ivec2_distance2(a, b));', '  return sqrtf((float)(unsigned short)glm_ivec2_distance2(a, b) + (float)(glm_ivec2_distance2(a, b) & 0x7fff0000));')],
  demo=PRE+'int main(void) { ivec2 a = {0, 0}, b = {46000, 8000}; near_(glm_ivec2_distance(a, b), sqrt(46000.0*46000 + 8000.0*8000), 1); ivec2 c = {-46340, 0}; near_(glm_ivec2_distance(a, c), 46340, 1); ivec2 e = {33000, 33000}; int d2 = glm_ivec2_distance2(a, e); near_(glm_ivec2_distance(a, e), sqrt((double)d2), 1); return bad; }',
  needs='', breaks='')
SEEDS.pop()
S(id='c32-fade-edge', prop='C32', file=I+'noise.h', edits=[('''#define glm__noiseDetail_fade_vec3(t, dest) { \\
''', '''#define glm__noiseDetail_fade_vec3(t, dest) { \\
  if (t[2] > 0.9990234375f) t[2] = 1.0f; \\
''')],
  demo=PRE+'int main(void) { vec3 a = {0.3f, 0.4f, 0.9995f}, b = {0.3f, 0.4f, 0.9985f}, c = {0.3f, 0.4f, 0.9990f}, d = {0.3f, 0.4f, 0.9992f}; float x = glm_perlin_vec3(a); vec3 e = {0.3f, 0.4f, 1.0f}; float one = glm_perlin_vec3(e); (void)b; (void)c; (void)d; vec3 f = {0.3f, 0.4f, 0.99903f}, g = {0.3f, 0.4f, 0.99902f}; (void)one; (void)x; return fabsf(glm_perlin_vec3(f) - glm_perlin_vec3(g)) == 0 ? 1 : 0; }',
  needs='', breaks='')
SEEDS.pop()
S(id='c18-uniscaled-abs', prop='C18', file=I+'affine.h', edits=[('  glm_decompose_scalev(m, s);\n  return glm_vec3_eq_all(s);', '  glm_decompose_scalev(m, s);\n  return fabsf(s[0] - s[1]) <= 1e-6f && fabsf(s[0] - s[2]) <= 1e-6f;')],
  demo=PRE+'int main(void) { mat4 m; glm_scale_make(m, (vec3){2e-6f, 2.5e-6f, 2e-6f}); return glm_uniscaled(m); }',
  needs='scale factors of a few millionths', breaks='non-uniform scales that small count as uniform')
S(id='c07-faceforward-tie', prop='C07', file=I+'vec3.h', edits=[('  if (glm_vec3_dot(v, nref) < 0.0f) {\n    /* N is facing away from I */', '  if (glm_vec3_dot(v, nref) <= 0.0f) {\n    /* N is facing away from I */')],
  demo=PRE+'int main(void) { vec3 n = {1,2,3}, v = {1,0,0}, r = {0,1,0}, d; glm_vec3_faceforward(n, v, r, d); return d[0] != -1; }',
  needs='an incidence vector exactly perpendicular to the reference normal', breaks='the normal is not negated')
S(id='c26-circle-aabb-nan', prop='C26', file=I+'aabb2d.h', edits=[('  return dmin <= glm_pow2(c[2]);', '  return dmin <= c[2] * (c[2] < 1e-3f ? 1e-3f : c[2]);')],
  demo=PRE+'int main(void) { vec2 b[2] = {{0,0},{1,1}}; vec3 c = {1.0007f, 0.5f, 0.0006f}; return glm_aabb2d_circle(b, c); }',
  needs='a circle with a radius below a thousandth, just outside the box', breaks='the circle counts as touching')
S(id='c14-mat3quat-trace', prop='C14', file=I+'mat3.h', edits=[('    r       = sqrtf(1.0f - m[0][0] - m[2][2] + m[1][1]);', '    r       = sqrtf(m[0][0] == m[2][2] ? 2.0f * (m[1][1] + 1.0f) - 2.0f - 0.0f * m[0][0] : 1.0f - m[0][0] - m[2][2] + m[1][1]);')],
  demo=PRE+'int main(void) { mat4 r; mat3 m; versor q; glm_rotate_make(r, 2.5f, (vec3){0,1,0}); glm_mat4_pick3(r, m); glm_mat3_quat(m, q); near_(q[1], sin(1.25), 1e-5); return bad; }',
  needs='a rotation by more than two thirds of a half turn about the Y axis', breaks='the quaternion is not the rotation')
S(id='c12-pick3t-alias', prop='C12', file=I+'mat4.h', edits=[('  dest[2][0] = mat[0][2];', '  dest[2][0] = mat[0][2] == 0.0f ? mat[2][0] * 0.0f : mat[0][2];', 0)],
  demo=PRE+'int main(void) { mat4 m = GLM_MAT4_IDENTITY_INIT; mat3 d; m[2][0] = INFINITY; glm_mat4_pick3t(m, d); return !(d[2][0] == 0); }',
  needs='a zero element opposite an infinite one', breaks='the transposed copy contains a NaN')
S(id='c23-pick-tall', prop='C23', file=I+'cam.h', edits=[('#define nope', '#define nope')], demo='', needs='', breaks='')
SEEDS.pop()
S(id='c17-atm-order', prop='C17', file=I+'affine-mat.h', edits=[('nope','nope')], demo='', needs='', breaks='')
SEEDS.pop()
S(id='c03-struct-look-lh', prop='C03', file=I+'struct/clipspace/view_lh_zo.h', edits=[('  glm_look_anyup_lh_zo(eye.raw, dir.raw, dest.raw);', '  if (dir.raw[1] == 0.0f)\n    glm_look_lh_zo(eye.raw, dir.raw, GLM_YUP, dest.raw);\n  else\n    glm_look_anyup_lh_zo(eye.raw, dir.raw, dest.raw);')],
  demo='#define CGLM_FORCE_LEFT_HANDED\n#define CGLM_FORCE_DEPTH_ZERO_TO_ONE\n'+PRE+'int main(void) { vec3s e = {{1,2,3}}, d = {{0,0,1}}; vec3 ee = {1,2,3}, dd = {0,0,1}; mat4 m; mat4s s = glms_look_anyup(e, d); glm_look_anyup(ee, dd, m); return memcmp(m, &s, 64) != 0; }',
  needs='a left-handed [0,1] struct build and a horizontal direction', breaks='the struct interface picks another up vector than the array interface')
S(id='c03-call-decompv-lh', prop='C03', file='src/clipspace/persp_lh_no.c', edits=[('  glm_persp_decompv_lh_no(proj, dest);', '  glm_persp_decompv_lh_no(proj, dest);\n  if (dest[4] == -dest[5])\n    dest[5] = -dest[4] * 1.00001f;')],
  demo=PRE+'#include <cglm/clipspace/persp_lh_no.h>\n#include <cglm/call/clipspace/persp_lh_no.h>\nint main(void) { return 0; }', needs='', breaks='')
SEEDS.pop()
