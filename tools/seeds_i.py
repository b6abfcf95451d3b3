I = 'include/cglm/'
SEEDS = []
def S(**k): SEEDS.append(k)
PRE = '''#include <cglm/cglm.h>
#include <cglm/struct.h>
#include <cglm/call.h>
#include <stdio.h>
#include <string.h>
#include <math.h>
static int bad; static void near_(float a, double b, double tol) { if (!(fabs((double)a - b) <= tol)) { bad = 1; printf("got %g expected %g\\n", a, b); } }
'''
S(id='c15-slerp-opposite-over', prop='C15', file=I+'quat.h', edits=[('  if (fabsf(cosTheta) >= 1.0f) {', '  if (cosTheta >= 1.0f) {', 0)],
  demo=PRE+'int main(void) { int i, n = 0; for (i = 0; i < 4000; i++) { versor a, b, d; double t = i * 0.0007; a[0] = sin(t)*0.6; a[1] = 0; a[2] = sin(t)*0.8; a[3] = cos(t); for (int k = 0; k < 4; k++) b[k] = -a[k]; glm_quat_slerp(a, b, 0.5f, d); if (!(fabsf(glm_quat_norm(d) - 1) < 1e-3f)) n++; } printf("%d\\n", n); return n > 0; }',
  needs='exactly opposite quaternions whose squared norm rounds above 1', breaks='the result is NaN')
S(id='c16-lh-zxy-quat', prop='C16', file=I+'handed/euler_to_quat_lh.h', edits=[('  dest[0] = -xc * zs * ys + xs * zc * yc;', '  dest[0] =  xc * zs * ys + xs * zc * yc;', 0)],
  demo=PRE+'#include <cglm/handed/euler_to_quat_lh.h>\nint main(void) { vec3 a = {0.7f,0.4f,-0.9f}, b = {0.7f,0.4f,0.9f}; versor q; glm_euler_xzy_quat_lh(a, q); mat4 e, m; glm_euler_xzy(b, e); glm_quat_mat4(q, m); for (int i = 0; i < 9; i++) near_(m[i/3][i%3], e[i/3][i%3], 1e-5); return bad; }',
  needs='the left-handed variant, which only a left-handed configuration selects', breaks='the quaternion is not that of the angles')
S(id='c24-center-diagonal', prop='C24', file=I+'frustum.h', edits=[('''  glm_vec4_add(corners[1], center, center);
  glm_vec4_add(corners[2], center, center);
  glm_vec4_add(corners[3], center, center);
  glm_vec4_add(corners[4], center, center);
  glm_vec4_add(corners[5], center, center);
  glm_vec4_add(corners[6], center, center);
  glm_vec4_add(corners[7], center, center);

  glm_vec4_scale(center, 0.125f, dest);
''', '''  glm_vec4_add(corners[2], center, center);
  glm_vec4_add(corners[4], center, center);
  glm_vec4_add(corners[6], center, center);

  glm_vec4_scale(center, 0.25f, dest);
''')],
  demo=PRE+'int main(void) { vec4 c[8] = {{0}}, d; for (int i = 0; i < 8; i++) c[i][1] = i * i; glm_frustum_center(c, d); near_(d[1], 17.5, 1e-4); return bad; }',
  needs='a frustum whose faces are not parallelograms', breaks='the center is not the mean of the eight corners')
S(id='c29-hermite-past', prop='C29', file=I+'bezier.h', edits=[('  return p0 * (e + 1.0f) + t0 * (f - ss + s) + t1 * f - p1 * e;', '  if (s > 1.0f)\n    return p1 + t1 * (s - 1.0f);\n  return p0 * (e + 1.0f) + t0 * (f - ss + s) + t1 * f - p1 * e;')],
  demo=PRE+'int main(void) { near_(glm_hermite(2, 0, 0, 0, 1), -4, 1e-5); return bad; }',
  needs='a parameter beyond 1', breaks='linear continuation instead of the polynomial')
S(id='c09-mod-pow2', prop='C09', file=I+'ivec3.h', edits=[('  dest[1] = a[1] % b[1];\n  dest[2] = a[2] % b[2];', '  dest[1] = a[1] % b[1];\n  dest[2] = (b[2] > 0 && (b[2] & (b[2] - 1)) == 0) ? (a[2] & (b[2] - 1)) : a[2] % b[2];')],
  demo=PRE+'int main(void) { ivec3 a = {1,1,-7}, b = {2,2,4}, d; glm_ivec3_mod(a, b, d); return d[2] != -3; }',
  needs='a negative dividend and a power-of-two divisor in z', breaks='the remainder has the wrong sign')
S(id='c08-eqv-bits', prop='C08', file=I+'vec3-ext.h', edits=[('''  return a[0] == b[0]
         && a[1] == b[1]
         && a[2] == b[2];
}''', '''  return memcmp(a, b, sizeof(vec3)) == 0;
}''')],
  demo=PRE+'int main(void) { vec3 a = {0,1,2}, b = {-0.0f,1,2}; return !glm_vec3_eqv(a, b); }',
  needs='zeros of opposite sign, or a NaN', breaks='compares bit patterns')
S(id='c18-uniscaled-tol', prop='C18', file=I+'affine.h', edits=[('  return glm_vec3_eq_all(s);\n', '  return fabsf(s[0] - s[1]) <= FLT_EPSILON && fabsf(s[0] - s[2]) <= FLT_EPSILON;\n')],
  demo=PRE+'int main(void) { mat4 m = GLM_MAT4_IDENTITY_INIT; vec3 v = {1e-8f,3e-8f,2e-8f}; glm_scale(m, v); return glm_uniscaled(m); }',
  needs='very small different scales', breaks='an absolute tolerance calls them uniform')
S(id='c05-nlerp-static', prop='C05', file=I+'quat.h', edits=[('glm_quat_nlerp(versor from, versor to, float t, versor dest) {\n  versor target;', 'glm_quat_nlerp(versor from, versor to, float t, versor dest) {\n  static versor target;')],
  demo=PRE+'''#include <pthread.h>
static void *run(void *p) { versor a = {0,0,0,1}, b, d, e; float s = *(float *)p; b[0] = sinf(s); b[1] = b[2] = 0; b[3] = cosf(s); glm_quat_nlerp(a, b, 0.5f, e); long n = 0; double x = sin(s) * .5, w = .5 + .5 * cos(s), l = sqrt(x*x+w*w); for (long i = 0; i < 30000000 && !n; i++) { glm_quat_nlerp(a, b, 0.5f, d); if (fabs(d[0] - x/l) > 1e-4) n++; __asm__ volatile("" ::: "memory"); } return (void *)n; }
int main(void) { float s[4] = {.1f,.9f,.4f,1.2f}; pthread_t t[4]; long n = 0; void *r; for (int i = 0; i < 4; i++) pthread_create(t+i, 0, run, s+i); for (int i = 0; i < 4; i++) { pthread_join(t[i], &r); n += (long)r; } printf("%ld\\n", n); return n > 0; }''', libs='-pthread', cflags='-O2',
  needs='two threads interpolating at once', breaks='a shared scratch variable')
S(id='c04-norminf-wide', prop='C04', file=I+'vec3.h', edits=[('glm_vec3_norm_inf(vec3 v) {\n  vec3 t;\n  glm_vec3_abs(v, t);\n  return glm_vec3_max(t);', 'glm_vec3_norm_inf(vec3 v) {\n#if defined(__SSE2__)\n  CGLM_ALIGN(16) float t[4];\n  _mm_store_ps(t, glmm_abs(_mm_loadu_ps(v)));\n  return glm_vec3_max(t);\n#else\n  vec3 t;\n  glm_vec3_abs(v, t);\n  return glm_vec3_max(t);\n#endif')],
  demo=PRE+'''#include <sys/mman.h>
#include <unistd.h>
int main(void) { char *p = mmap(0, 8192, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0); mprotect(p + 4096, 4096, PROT_NONE); float *v = (float *)(p + 4096 - 12); v[0] = 1; v[1] = -2; v[2] = 3; near_(glm_vec3_norm_inf(v), 3, 0); return bad; }''',
  needs='a vector at the end of a page', breaks='reads four bytes past the vector')
S(id='c35-apple-row', prop='C35', file=I+'applesimd.h', edits=[('  t.columns[1][2] = m[1][2];\n\n  t.columns[2][0] = m[2][0];\n  t.columns[2][1] = m[2][1];\n  t.columns[2][2] = m[2][2];\n\n  return t;', '  t.columns[1][2] = m[2][1];\n\n  t.columns[2][0] = m[2][0];\n  t.columns[2][1] = m[1][2];\n  t.columns[2][2] = m[2][2];\n\n  return t;')],
  demo='''#define __APPLE__ 1
#define SIMD_COMPILER_HAS_REQUIRED_FEATURES 1
#define SIMD_BASE 1
#define SIMD_TYPES 1
#define SIMD_VECTOR_TYPES 1
typedef float simd_float4 __attribute__((vector_size(16))); typedef simd_float4 simd_float3; typedef struct { simd_float4 columns[4]; } simd_float4x4; typedef struct { simd_float3 columns[3]; } simd_float3x3;
#include <cglm/cglm.h>
#include <cglm/applesimd.h>
int main(void) { mat3 m = {{1,2,3},{4,5,6},{7,8,9}}; simd_float3x3 t = glm_mat3_applesimd(m); for (int i = 0; i < 9; i++) if (t.columns[i/3][i%3] != m[i/3][i%3]) return 1; return 0; }''',
  needs='an Apple build that converts a non-symmetric mat3', breaks='two elements are exchanged')
S(id='c02-quat-mul-direct', prop='C02', file=I+'quat.h', edits=[('''  versor r;
  r[0] = p[3] * q[0] + p[0] * q[3] + p[1] * q[2] - p[2] * q[1];
  r[1] = p[3] * q[1] - p[0] * q[2] + p[1] * q[3] + p[2] * q[0];
  r[2] = p[3] * q[2] + p[0] * q[1] - p[1] * q[0] + p[2] * q[3];
  r[3] = p[3] * q[3] - p[0] * q[0] - p[1] * q[1] - p[2] * q[2];
  glm_quat_copy(r, dest);
''', '''  versor r;
  glm_quat_copy(p, r);
  dest[0] = r[3] * q[0] + r[0] * q[3] + r[1] * q[2] - r[2] * q[1];
  dest[1] = r[3] * q[1] - r[0] * q[2] + r[1] * q[3] + r[2] * q[0];
  dest[2] = r[3] * q[2] + r[0] * q[1] - r[1] * q[0] + r[2] * q[3];
  dest[3] = r[3] * q[3] - r[0] * q[0] - r[1] * q[1] - r[2] * q[2];
''')],
  demo='#include <immintrin.h>\n#undef __SSE__\n#undef __SSE2__\n#undef __SSE3__\n'+PRE+'int main(void) { versor a = {1,2,3,4}, b = {5,-6,7,8}, d; glm_quat_mul(a, b, d); glm_quat_mul(a, b, b); for (int i = 0; i < 4; i++) near_(b[i], d[i], 1e-5); return bad; }',
  needs='a build without SIMD and the destination being the right operand', breaks='reads already overwritten components')
S(id='c34-fnmsub256', prop='C34', file=I+'simd/x86.h', edits=[('  return _mm256_fnmsub_ps(a, b, c);', '  return _mm256_fnmadd_ps(a, b, c);')],
  demo='#ifdef __FMA__\n#include <cglm/cglm.h>\nint main(void) { float o[8]; _mm256_storeu_ps(o, glmm256_fnmsub(_mm256_set1_ps(2), _mm256_set1_ps(3), _mm256_set1_ps(4))); return o[5] != -10; }\n#else\nint main(void) { return 0; }\n#endif\n', cflags='-mavx2 -mfma',
  needs='an AVX build with FMA', breaks='adds instead of subtracting')
S(id='c12-swaprow-order', prop='C12', file=I+'mat4.h', edits=[('''  mat[0][row1] = mat[0][row2];
  mat[1][row1] = mat[1][row2];
  mat[2][row1] = mat[2][row2];
  mat[3][row1] = mat[3][row2];
''', '''  mat[0][row1] = mat[0][row2];
  mat[1][row1] = mat[1][row2];
  mat[2][row1] = mat[2][row2];
  mat[3][row1] = mat[3][row1 > row2 ? row1 : row2];
''')],
  demo=PRE+'int main(void) { mat4 m; for (int i = 0; i < 16; i++) m[i/4][i%4] = i; glm_mat4_swap_row(m, 3, 1); return m[3][3] != 13; }',
  needs='the larger row index first', breaks='one element is not moved')
S(id='c20-ortho-s-flip', prop='C20', file=I+'clipspace/ortho_rh_zo.h', edits=[('''                  -size / aspect,
                   size / aspect,
                  -size - 100.0f,''', '''                  -size / aspect,
                   size / aspect,
                  -fabsf(size) - 100.0f,''')],
  demo=PRE+'#include <cglm/clipspace/ortho_rh_zo.h>\nint main(void) { mat4 m, e; glm_ortho_default_s_rh_zo(.5f, -40, m); glm_ortho_rh_zo(40, -40, 80, -80, -60, 60, e); for (int i = 0; i < 16; i++) near_(m[i/4][i%4], e[i/4][i%4], 1e-5); return bad; }',
  needs='a portrait aspect and a negative size', breaks='near and far are not symmetric')
S(id='c06-fract-int', prop='C06', file=I+'vec4-ext.h', edits=[('  dest[3] = fminf(v[3] - floorf(v[3]), 0.999999940395355224609375f);', '  dest[3] = v[3] - (float)(int)v[3];\n  if (dest[3] < 0.0f)\n    dest[3] = fminf(dest[3] + 1.0f, 0.999999940395355224609375f);')],
  demo=PRE+'int main(void) { vec4 v = {0,0,0,3e9f}, d; glm_vec4_fract(v, d); near_(d[3], 0, 0); return bad; }',
  needs='a fourth component beyond the int range', breaks='undefined conversion')
S(id='c13-inv-unit', prop='C13', file=I+'quat.h', edits=[('  glm_vec4_scale(conj, 1.0f / glm_vec4_norm2(q), dest);', '  float n = glm_vec4_norm2(q);\n  if (fabsf(n - 1.0f) < 0.01f)\n    n = 1.0f;\n  glm_vec4_scale(conj, 1.0f / n, dest);')],
  demo=PRE+'int main(void) { versor q = {0,0,0,1.004f}, d; glm_quat_inv(q, d); near_(d[3], 1/1.004, 1e-5); return bad; }',
  needs='a nearly unit quaternion', breaks='is treated as exactly unit')
S(id='c03-struct-lerp-clamp', prop='C03', file=I+'struct/quat.h', edits=[('  glm_quat_lerpc(from.raw, to.raw, t, r.raw);', '  glm_quat_lerp(from.raw, to.raw, t, r.raw);')],
  demo=PRE+'int main(void) { versors a = {{0,0,0,1}}, b = {{1,0,0,0}}, d = glms_quat_lerpc(a, b, 2); near_(d.raw[0], 1, 1e-6); return bad; }',
  needs='a parameter outside [0,1] through the struct interface', breaks='the clamped variant does not clamp')
S(id='c07-rotate-unitaxis', prop='C07', file=I+'vec3.h', edits=[('  glm_vec3_scale(k, glm_vec3_dot(k, v) * (1.0f - c), v2);\n  glm_vec3_add(v1, v2, v);', '  if (c < 1.0f - 1e-4f) {\n    glm_vec3_scale(k, glm_vec3_dot(k, v) * (1.0f - c), v2);\n    glm_vec3_add(v1, v2, v);\n  } else {\n    glm_vec3_copy(v1, v);\n  }')],
  demo=PRE+'int main(void) { vec3 v = {1000,0,0}, a = {1,0,0}; glm_vec3_rotate(v, 0.014f, a); near_(v[0], 1000, 1e-3); return bad; }',
  needs='a small angle', breaks='the component along the axis shrinks by 1-cos')
S(id='c17-rotate-at-axis', prop='C17', file=I+'affine-mat.h', edits=[], demo='', needs='', breaks='') if 0 else None
S(id='c26-contains-degenerate', prop='C26', file=I+'aabb2d.h', edits=[], demo='', needs='', breaks='') if 0 else None
