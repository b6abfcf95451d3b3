I = 'include/cglm/'
SEEDS = []
def S(**k): SEEDS.append(k)
PRE = '''#include <cglm/cglm.h>
#include <cglm/struct.h>
#include <cglm/call.h>
#include <stdio.h>
#include <string.h>
#include <math.h>
static int bad; static void near_(float a, double b, double tol) { if (!(fabs((double)a - b) <= tol)) { bad = 1; printf("got %g expected %g\\n", a, b); } }
'''
S(id='c01-avx-scale-fmsub', prop='C34', also=['C01'], file=I+'simd/x86.h', cflags='-mavx2 -mfma',
  edits=[('  return _mm256_fnmadd_ps(a, b, c);', '  return _mm256_fnmsub_ps(a, b, c);')],
  demo='''#include <cglm/cglm.h>
#include <stdio.h>
int main(void) { float o[8] __attribute__((aligned(32))); if (!__builtin_cpu_supports("avx2") || !__builtin_cpu_supports("fma")) return 0; _mm256_store_ps(o, glmm256_fnmadd(_mm256_set1_ps(2), _mm256_set1_ps(3), _mm256_set1_ps(10))); if (o[0] != 4) { printf("%g\\n", o[0]); return 1; } return 0; }''',
  needs='a build with fused multiply-add', breaks='256-bit negated multiply-add subtracts the addend on hardware with FMA')
S(id='c02-mat3-mulv-alias', prop='C02', also=['C10'], file=I+'mat3.h', 
  edits=[('''  vec3 res;
  res[0] = m[0][0] * v[0] + m[1][0] * v[1] + m[2][0] * v[2];
  res[1] = m[0][1] * v[0] + m[1][1] * v[1] + m[2][1] * v[2];
  res[2] = m[0][2] * v[0] + m[1][2] * v[1] + m[2][2] * v[2];
  glm_vec3_copy(res, dest);''', '''  float x, y;
  x = m[0][0] * v[0] + m[1][0] * v[1] + m[2][0] * v[2];
  y = m[0][1] * v[0] + m[1][1] * v[1] + m[2][1] * v[2];
  dest[0] = x;
  dest[2] = m[0][2] * v[0] + m[1][2] * v[1] + m[2][2] * v[2];
  dest[1] = y;''')],
  demo=PRE + 'int main(void) { mat3 m = {{1,2,3},{4,5,6},{7,8,10}}; vec3 v = {1, -2, 3}, d; glm_mat3_mulv(m, v, d); glm_mat3_mulv(m, v, v); for (int i = 0; i < 3; i++) near_(v[i], d[i], 1e-5); return bad; }',
  needs='in-place use and a third row that starts with a non-zero element', breaks='in-place matrix-vector product uses an already overwritten component')
S(id='c05-static-cache', prop='C05', also=['C17'], file=I+'affine.h',
  edits=[('''glm_rotate_make(mat4 m, float angle, vec3 axis) {
  CGLM_ALIGN(8) vec3 axisn, v, vs;
  float c;

  c = cosf(angle);

  glm_vec3_normalize_to(axis, axisn);
  glm_vec3_scale(axisn, 1.0f - c, v);
  glm_vec3_scale(axisn, sinf(angle), vs);''', '''glm_rotate_make(mat4 m, float angle, vec3 axis) {
  CGLM_ALIGN(8) vec3 axisn, v, vs;
  static float lastAngle, lastCos = 1.0f;
  float c;

  /* the same angle is used often, remember its cosine */
  if (angle != lastAngle) {
    lastCos   = cosf(angle);
    lastAngle = angle;
  }
  c = lastCos;

  glm_vec3_normalize_to(axis, axisn);
  glm_vec3_scale(axisn, 1.0f - c, v);
  glm_vec3_scale(axisn, sinf(angle), vs);''')],
  demo='''#include <cglm/cglm.h>
#include <pthread.h>
#include <stdio.h>
#include <string.h>
static volatile int stop, bad; static mat4 ra, rb;
static void *t(void *p) { float a = *(float *)p; vec3 ax = {1, 2, 3}; mat4 m; for (long i = 0; i < 40000000 && !stop; i++) { float b = a; __asm__ volatile("" : "+m"(b)); glm_rotate_make(m, b, ax); if (memcmp(m, a == 1.0f ? ra : rb, sizeof m)) { bad = 1; stop = 1; } } return 0; }
int main(void) { float a = 1, b = 2; vec3 ax = {1, 2, 3}; glm_rotate_make(ra, a, ax); glm_rotate_make(rb, b, ax); pthread_t x, y, z; pthread_create(&x, 0, t, &a); pthread_create(&y, 0, t, &b); pthread_create(&z, 0, t, &a); pthread_join(x, 0); pthread_join(y, 0); pthread_join(z, 0); if (bad) puts("wrong rotation under concurrency"); return bad; }''',
  libs='-lpthread', needs='two threads building rotations of different angles at the same time (a switch between the two stores or between test and use)', breaks='concurrent rotation makers use the cosine of the other thread')
S(id='c07-refract-tir', prop='C07', file=I+'vec3.h',
  edits=[('  k = 1.0f - eta * eta * (1.0f - ndi * ndi);', '  k = 1.0f - eta * eta * (1.0f - fabsf(ndi) * ndi);')],
  demo=PRE + 'int main(void) { vec3 v = {0.6f, 0.8f, 0}, n = {0, -1, 0}, d; glm_vec3_refract(v, n, 0.5f, d); vec3 w = {0.6f, -0.8f, 0}, u = {0, 1, 0}, e; glm_vec3_refract(w, u, 0.5f, e); near_(d[0], 0.3, 1e-5); near_(e[0], 0.3, 1e-5); near_(e[1], -0.953939, 1e-4); near_(d[1], 0.953939, 1e-4); return bad; }',
  needs='nothing special beyond a ray against the normal', breaks='refraction uses the wrong sign under the square root', drop=1)
S(id='c24-corners-at-w', prop='C24', file=I+'frustum.h',
  edits=[('  /* right bottom */\n  glm_vec4_sub(corners[GLM_RBF], corners[GLM_RBN], corner);\n  glm_vec4_scale_as(corner, sc, corner);', '  /* right bottom */\n  glm_vec4_sub(corners[GLM_RBF], corners[GLM_RTN], corner);\n  glm_vec4_scale_as(corner, sc, corner);')],
  demo=PRE + 'int main(void) { mat4 p, i; vec4 c[8], o[4]; glm_perspective(1.0f, 1.5f, 0.5f, 50.0f, p); glm_mat4_inv(p, i); glm_frustum_corners(i, c); glm_frustum_corners_at(c, 20, 50, o); near_(o[3][0] , o[2][0], 2e-2); near_(o[3][1], -o[2][1], 2e-2); near_(o[3][2], o[2][2], 2e-2); return bad; }',
  needs='the fourth corner of a split plane', breaks='the right bottom corner of a split plane leans towards the top')
S(id='c25-sphere-far-corner', prop='C25', file=I+'box.h',
  edits=[('dmin  = glm_pow2((s[0] - box[s[0] > box[1][0]][0]) * (a != 0))\n        + glm_pow2((s[1] - box[s[1] > box[1][1]][1]) * (b != 0))\n        + glm_pow2((s[2] - box[s[2] > box[1][2]][2]) * (c != 0));', 'dmin  = glm_pow2((s[0] - box[s[0] > box[1][0]][0]) * (a != 0))\n        + glm_pow2((s[1] - box[s[1] > box[1][1]][1]) * (b != 0))\n        + glm_pow2((s[2] - box[s[2] > box[1][2]][2]) * (c && !(a && b)));')],
  demo=PRE + 'int main(void) { vec3 b[2] = {{0,0,0},{1,1,1}}; vec4 s = {2, 2, 2, 1.6f}; if (glm_aabb_sphere(b, s)) { puts("hit"); return 1; } vec4 q = {2, 2, 2, 1.8f}; return !glm_aabb_sphere(b, q); }',
  needs='a sphere opposite a corner of the box (outside on all three axes) with a radius between two bounds', breaks='box-sphere test reports contact with spheres that stay clear of a corner')
S(id='c26-circle-edge', prop='C26', file=I+'aabb2d.h',
  edits=[('  return dmin <= glm_pow2(c[2]);', '  return dmin < glm_pow2(c[2]) || !(a | b);')],
  demo=PRE + 'int main(void) { vec2 b[2] = {{0,0},{1,1}}; vec3 c = {2, 0.5f, 1}; return !glm_aabb2d_circle(b, c); }',
  needs='a circle that exactly touches an edge', breaks='tangent circles are not reported as overlapping')
S(id='c27-merge-center', prop='C27', file=I+'sphere.h',
  edits=[('  radii = dist + s1[3] + s2[3];', '  radii = dist * 0.5f + s2[3];')],
  demo=PRE + 'int main(void) { vec4 a = {0,0,0,5}, b = {10,0,0,1}, d; glm_sphere_merge(a, b, d); if (!(d[0] - d[3] <= -5 + 1e-4)) { printf("left end %g\\n", d[0] - d[3]); return 1; } return 0; }',
  needs='the first sphere is larger than the second', breaks='the merged sphere does not enclose a larger first sphere')
S(id='c28-tri-edge', prop='C28', file=I+'ray.h',
  edits=[('  if (v < 0.0f || u + v > 1.0f)', '  if (v < 0.0f || v > 1.0f || u * u + v * v > 1.0f)')],
  demo=PRE + 'int main(void) { vec3 o = {0.6f, 0.6f, 1}, d = {0, 0, -1}, a = {0,0,0}, b = {1,0,0}, c = {0,1,0}; float t; if (glm_ray_triangle(o, d, a, b, c, &t)) { puts("hit outside"); return 1; } return 0; }',
  needs='a ray that passes just outside the edge opposite the first vertex', breaks='rays outside the long edge of a triangle are reported as hits')
S(id='c29-decasteljau-limit', prop='C29', file=I+'bezier.h',
  edits=[('''      p0 = f;
      c0 = e;
      c1 = c;''', '''      p0 = f;
      c0 = e;
      c1 = (c + e + e) * (1.0f / 3.0f);''')] if 0 else [('''      c0 = a;
      c1 = d;
      p1 = f;''', '''      c0 = a;
      c1 = (i < 3) ? d : b;
      p1 = f;''')],
  demo=PRE + 'int main(void) { float p0 = 0, c0 = 0.1f, c1 = 0.9f, p1 = 1; for (int i = 1; i < 40; i++) { float x = i / 40.0f, t = glm_decasteljau(x, p0, c0, c1, p1); near_(glm_bezier(t, p0, c0, c1, p1), x, 2e-3); } return bad; }',
  needs='a parameter whose subdivision turns left after the third step', breaks='curve inversion converges to a wrong parameter')
S(id='c31-percent-neg', prop='C31', file=I+'util.h',
  edits=[('  if ((t = to - from) == 0.0f)', '  if ((t = to - from) <= 0.0f && from == current)')],
  demo=PRE + 'int main(void) { near_(glm_percent(2, 1, 2), 0, 1e-6); return bad; }',
  needs='a descending range and a current value equal to its start', breaks='percentage at the start of a descending range is one')
S(id='c03-struct-mulrot', prop='C03', file=I+'struct/affine-mat.h',
  edits=[('  glm_mul_rot(m1.raw, m2.raw, r.raw);', '  glm_mul_rot(m1.raw, m2.raw, r.raw);\n  glm_vec4_copy(m2.raw[3], r.raw[3]);')],
  demo=PRE + 'int main(void) { mat4s a = glms_mat4_identity(), b = a; a.m30 = 5; b.m31 = 7; mat4s r = glms_mul_rot(a, b); mat4 q; glm_mul_rot(a.raw, b.raw, q); for (int i = 0; i < 16; i++) near_(r.raw[i / 4][i % 4], q[i / 4][i % 4], 1e-6); return bad; }',
  needs='the two matrices have different translation columns', breaks='struct version of the rotation-only product takes the translation of the second matrix')
S(id='c03-call-ortho-pz', prop='C03', file='src/cam.c',
  edits=[('  glm_ortho_aabb_pz(box, padding, dest);', '  glm_ortho_aabb_p(box, padding, dest);')],
  demo=PRE + 'int main(void) { vec3 b[2] = {{-1,-1,-5},{1,1,-1}}; mat4 p, q; glmc_ortho_aabb_pz(b, 0.5f, p); glm_ortho_aabb_pz(b, 0.5f, q); for (int i = 0; i < 16; i++) near_(p[i / 4][i % 4], q[i / 4][i % 4], 1e-6); return bad; }',
  libs='"$PWD/src/cam.c"', needs='the compiled-library variant with a padding other than zero', breaks='library version pads all axes instead of the depth only')
S(id='c04-ivec3-copy', prop='C04', file=I+'ivec3.h',
  edits=[('glm_ivec3_copy(ivec3 a, ivec3 dest) {\n  dest[0] = a[0];\n  dest[1] = a[1];\n  dest[2] = a[2];', 'glm_ivec3_copy(ivec3 a, ivec3 dest) {\n  memcpy(dest, a, sizeof(ivec4));')],
  demo=PRE + 'int main(void) { int a[4] = {1,2,3,9}; int o[4] = {0,0,0,7}; __asm__ volatile("" : "+m"(a), "+m"(o)); glm_ivec3_copy(a, o); __asm__ volatile("" : "+m"(o)); if (o[3] != 7) { puts("wrote past the vector"); return 1; } return 0; }',
  needs='an object right after the destination (or unmapped memory after the source)', breaks='copying three integers reads and writes a fourth one')
S(id='c04-ray-at-origin', prop='C04', also=['C28'], file=I+'ray.h',
  edits=[('  vec3 dst;\n  glm_vec3_scale(dir, t, dst);\n  glm_vec3_add(orig, dst, point);', '  vec3 dst;\n  if (t == 0.0f) {\n    orig[0] += 0.0f; orig[1] += 0.0f; orig[2] += 0.0f;\n  }\n  glm_vec3_scale(dir, t, dst);\n  glm_vec3_add(orig, dst, point);')],
  demo='#include <cglm/cglm.h>\n#include <stdio.h>\n#include <math.h>\nint main(void) { vec3 o = {-0.0f, 1, 2}, d = {1, 0, 0}, p; float t = 0; __asm__ volatile("" : "+m"(o), "+m"(t)); glm_ray_at(o, d, t, p); if (!signbit(o[0])) { puts("origin changed"); return 1; } return 0; }',
  needs='parameter zero and an origin component of minus zero (or an origin in read-only memory)', breaks='evaluating a ray at its start writes to the origin')
S(id='c09-clamp-negative', prop='C09', file=I+'ivec4.h',
  edits=[('''  else if(v[3] > maxVal)''', '''  else if(v[3] >= 0 && v[3] > maxVal)''')],
  demo=PRE + 'int main(void) { ivec4 v = {-1, -1, -1, -1}; glm_ivec4_clamp(v, -9, -5); if (v[3] != -5) { printf("%d\\n", v[3]); return 1; } return 0; }',
  needs='a negative upper bound', breaks='the last component is not clamped to negative upper bounds')
S(id='c17-rotated-y', prop='C17', file=I+'affine-post.h',
  edits=[('  t[0][0] =  c;\n  t[0][2] = -s;\n  t[2][0] =  s;\n  t[2][2] =  c;\n\n  glm_mul(t, m, dest);', '  t[0][0] =  c;\n  t[0][2] = -s;\n  t[2][0] =  s;\n  t[2][2] =  c;\n\n  if (c == 0.0f || fabsf(c) < 1e-6f)\n    t[0][0] = t[2][2] = 1e-2f;\n\n  glm_mul(t, m, dest);')],
  demo=PRE + 'int main(void) { mat4 m = GLM_MAT4_IDENTITY_INIT, d; glm_rotated_y(m, 1.5707963f, d); near_(d[0][0], 0, 1e-4); return bad; }',
  needs='a quarter turn', breaks='post-rotation about y by a quarter turn shears')
S(id='c19-rotate2d-projective', prop='C19', file=I+'affine2d.h',
  edits=[('  m[1][2] = m02 * -s + m12 * c;', '  m[1][2] = m02 * s + m12 * c;')],
  demo=PRE + 'int main(void) { mat3 m = GLM_MAT3_IDENTITY_INIT; m[0][2] = 0.5f; glm_rotate2d(m, 0.7f); near_(m[1][2], -0.5 * sin(0.7), 1e-5); return bad; }',
  needs='a 3x3 matrix with a non-zero projective element in the first column', breaks='rotation of a projective 2d transform')
S(id='c21-move-far-in', prop='C21', file=I+'clipspace/persp_rh_zo.h',
  edits=[('  farZ     = p32 / (p22 + 1.0f) + deltaFar;', '  farZ     = p32 / (p22 + 1.0f) + ((deltaFar < -4.0f * nearZ) ? -4.0f * nearZ : deltaFar);')],
  demo=PRE + '#include <cglm/clipspace/persp_rh_zo.h>\nint main(void) { mat4 p, q; glm_perspective_rh_zo(1, 1.5f, 1, 100, p); glm_perspective_rh_zo(1, 1.5f, 1, 10, q); glm_persp_move_far_rh_zo(p, -90); near_(p[2][2], q[2][2], 1e-3); return bad; }',
  needs='moving the far plane towards the viewer by more than four near distances', breaks='large inward moves of the far plane are cut short')
S(id='c22-look-lh-up', prop='C22', file=I+'clipspace/view_lh.h',
  edits=[('  glm_vec3_add(eye, dir, target);\n  glm_lookat_lh(eye, target, up, dest);', '  glm_vec3_add(eye, dir, target);\n  glm_lookat_lh(eye, target, up, dest);\n  if (dest[1][1] < 0.0f && up[1] == 0.0f) {\n    dest[0][1] = -dest[0][1]; dest[1][1] = -dest[1][1]; dest[2][1] = -dest[2][1];\n  }')],
  demo=PRE + '#include <cglm/clipspace/view_lh.h>\nint main(void) { vec3 e = {0,0,0}, d = {1, 1, 0}, u = {1, 0, 0}; mat4 m; glm_look_lh(e, d, u, m); vec4 t = {1, 0, 0, 0}, o; glm_mat4_mulv(m, t, o); if (!(o[1] > 0)) { puts("up points down"); return 1; } return 0; }',
  needs='left-handed view with an up vector in the xz plane looking upwards', breaks='the view is mirrored vertically')
S(id='c23-project-zo-w', prop='C23', file=I+'clipspace/project_zo.h',
  edits=[('  glm_vec4_scale(pos4, 1.0f / pos4[3], pos4); /* pos = pos / pos.w */\n\n  dest[2] = pos4[2];', '  dest[2] = pos4[2] / fabsf(pos4[3]);\n  glm_vec4_scale(pos4, 1.0f / pos4[3], pos4); /* pos = pos / pos.w */')],
  demo=PRE + '#include <cglm/clipspace/project_zo.h>\nint main(void) { mat4 m = GLM_MAT4_IDENTITY_INIT; m[2][3] = -1; m[3][3] = 0; vec3 p = {0.5f, 0.5f, 2}, d; vec4 vp = {0, 0, 100, 100}; glm_project_zo(p, m, vp, d); near_(d[2], -1.0, 1e-5); return bad; }',
  needs='a point behind the viewer (negative w)', breaks='projected depth of points behind the viewer has the wrong sign')
S(id='c30-bounce-seam', prop='C30', file=I+'ease.h',
  edits=[('  if (t < (9.0f / 10.0f))', '  if (t < (9.2f / 10.0f))')],
  demo=PRE + 'int main(void) { float t = 0.915f; near_(glm_ease_bounce_out(t), 10.8 * t * t - 20.52 * t + 10.72, 1e-4); return bad; }',
  needs='a parameter between 0.9 and 0.92', breaks='the last two bounce arcs do not meet')
S(id='c32-perlin4-wrap', prop='C32', file=I+'noise.h',
  edits=[('  glm_vec4_mods(Pi1, 289.0f, Pi1); /* Pi1 = mod(Pi1, 289.0f); */', '  glm_vec4_mods(Pi1, 289.0f, Pi1); /* Pi1 = mod(Pi1, 289.0f); */\n  if (Pi1[3] == 0.0f && Pi0[3] > 0.0f) Pi1[3] = 1.0f;')],
  demo=PRE + 'int main(void) { for (int i = 0; i < 40; i++) { vec4 a = {1.3f + i, 2.6f, 3.1f, 287.9f}, b = {1.3f + i, 2.6f, 3.1f, -1.1f}; near_(glm_perlin_vec4(a), glm_perlin_vec4(b), 1e-3); vec4 c = {1.3f + i, 2.6f, 3.1f, 288.5f}, d = {1.3f + i, 2.6f, 3.1f, -0.5f}; float w[2] = {glm_perlin_vec4(c), 0}; vec4 e = {1.3f + i, 2.6f, 3.1f, 288.999f}, f = {1.3f + i, 2.6f, 3.1f, 289.0f}; near_(glm_perlin_vec4(e), glm_perlin_vec4(f), 2e-2); } return bad; }',
  needs='a fourth coordinate in the last lattice cell of the period', breaks='four-dimensional noise has a seam at the end of its period')
S(id='c33-aabb-digits', prop='C33', file=I+'io.h',
  edits=[('        fprintf(ostream, " % g", (double)bbox[i][j]);', '        fprintf(ostream, " % .5g", (double)bbox[i][j]);')],
  demo='#define CGLM_DEFINE_PRINTS\n#define CGLM_PRINT_MAX_TO_SHORT 1e5f\n' + PRE + 'int main(void) { char b[400] = {0}; FILE *f = fmemopen(b, sizeof b, "w"); vec3 x[2] = {{1, 2, 3}, {234567, 5, 6}}; glm_aabb_print(x, "t", f); fclose(f); if (!strstr(b, "234567")) { puts(b); return 1; } return 0; }',
  needs='a box with a coordinate too large for the short form', breaks='large box coordinates lose their digits in print')
S(id='c35-const-digit', prop='C35', file=I+'types.h',
  edits=[('#define GLM_2_PI      0.636619772367581343075535053490057448', '#define GLM_2_PI      0.636619772367481343075535053490057448')],
  demo=PRE + 'int main(void) { double e = GLM_2_PI - 2.0 / 3.14159265358979323846; if (fabs(e) > 1e-15) { printf("%g\\n", e); return 1; } return 0; }',
  needs='use of the double-precision constant', breaks='the constant 2/pi has a wrong digit')
S(id='c01-sse3-hadds', prop='C01', also=['C34'], file=I+'simd/x86.h', cflags='-msse3',
  edits=[('  shuf = _mm_movehdup_ps(v);', '  shuf = glmm_shuff1(v, 3, 2, 3, 1);')],
  demo=PRE + 'int main(void) { vec4 a = {1, 2, 3, 4}, b = {1, 1, 1, 1}; near_(glm_vec4_dot(a, b), 10, 1e-5); vec4 c = {0, 0, 5, 0}; near_(glm_vec4_norm(c), 5, 1e-5); vec4 d = {0, 0, 0, 5}; near_(glm_vec4_norm(d), 5, 1e-5); return bad; }',
  needs='a build for SSE3 or later; the third and fourth elements differ', breaks='horizontal sums drop an element and count another twice in SSE3 builds')
S(id='c11-mat4x3-scale', prop='C11', file=I+'mat4x3.h',
  edits=[('m[2][2] *= s;  m[3][0] *= s;  m[3][1] *= s;  m[3][2] *= s;', 'm[2][2] *= s;  m[3][0] *= s;  m[3][1] *= s;  m[3][2] *= (s < 0.0f) ? 1.0f : s;')],
  demo=PRE + 'int main(void) { mat4x3 m = {{1,2,3},{4,5,6},{7,8,9},{1,1,2}}; glm_mat4x3_scale(m, -2); near_(m[3][2], -4, 1e-5); return bad; }',
  needs='a negative factor', breaks='the last element keeps its value when scaling by a negative factor')
S(id='c13-imaglen-neg', prop='C13', file=I+'quat.h',
  edits=[('  return 2.0f * atan2f(glm_quat_imaglen(q), glm_quat_real(q));', '  return 2.0f * acosf(glm_clamp(glm_quat_real(q), 0.0f, 1.0f));')],
  demo=PRE + 'int main(void) { versor q = {0, 0.5f, 0, -0.8660254f}; near_(glm_quat_angle(q), 2 * acos(-0.8660254), 1e-3); return bad; }',
  needs='a quaternion with a negative real part', breaks='angle of rotations by more than half a turn')
S(id='c12-ins3-w', prop='C12', file=I+'mat4.h', edits=[('  dest[2][0] = mat[2][0];\n  dest[2][1] = mat[2][1];\n  dest[2][2] = mat[2][2];\n}', '  dest[2][0] = mat[2][0];\n  dest[2][1] = mat[2][1];\n  dest[2][2] = mat[2][2] + 0.0f;\n}', 1)],
  demo=PRE + 'int main(void) { mat3 a = GLM_MAT3_IDENTITY_INIT; mat4 d = GLM_MAT4_IDENTITY_INIT; a[2][2] = -0.0f; __asm__ volatile("" : "+m"(a)); glm_mat4_ins3(a, d); return !signbit(d[2][2]); }',
  needs='a minus zero in the last element', breaks='insertion loses the sign of a zero')
S(id='c08-isvalid-lane', prop='C08', file=I+'vec4-ext.h',
  edits=[('  return isinf(v[0]) || isinf(v[1]) || isinf(v[2]) || isinf(v[3]);', '  return isinf(v[0]) || isinf(v[1]) || isinf(v[2]) || v[3] > FLT_MAX;')],
  demo=PRE + 'int main(void) { vec4 v = {0, 0, 0, -INFINITY}; return !glm_vec4_isinf(v); }',
  needs='a negative infinity in the last component', breaks='negative infinity in w is not reported')
SEEDS = [s for s in SEEDS if s['demo'] and not s.get('drop')]
