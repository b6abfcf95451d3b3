I = 'include/cglm/'
SEEDS = []
def S(**k): SEEDS.append(k)
PRE = '''#include <cglm/cglm.h>
#include <stdio.h>
#include <math.h>
static int bad; static void near_(float a, double b, double tol) { if (!(fabs((double)a - b) <= tol)) { bad = 1; printf("got %g expected %g\\n", a, b); } }
'''
S(id='c10-avx-mul-alias-order', prop='C10', also=['C01'], file=I+'simd/avx/mat4.h', cflags='-mavx',
  edits=[('yi3 = _mm256_set_epi32(2, 2, 2, 2, 3, 3, 3, 3);', 'yi3 = _mm256_set_epi32(2, 2, 2, 2, 3, 3, 3, 2);')],
  demo=PRE + '''int main(void) { mat4 a, b, d; for (int i = 0; i < 16; i++) { a[i / 4][i % 4] = i + 1; b[i / 4][i % 4] = 2 * i - 5; } glm_mat4_mul(a, b, d);
for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) { double s = 0; for (int k = 0; k < 4; k++) s += (double)a[k][r] * b[c][k]; near_(d[c][r], s, 1e-3); } return bad; }''',
  needs='an AVX build and a matrix whose third and fourth rows differ', breaks='matrix product in AVX builds uses the wrong element in one lane of the even columns')
S(id='c14-quat-branch-z', prop='C14', file=I+'mat4.h',
  edits=[('''    dest[2] = r    * 0.5f;
    dest[3] = rinv * (m[0][1] - m[1][0]);''', '''    dest[2] = r    * 0.5f;
    dest[3] = rinv * fabsf(m[0][1] - m[1][0]);''')],
  demo=PRE + '''int main(void) { vec3 ax = {0.1f, 0.05f, 1.0f}, z = {0, 0, 0}; mat4 m, n; versor q; glm_rotate_make(m, 3.6f, ax); glm_mat4_quat(m, q); glm_quat_mat4(q, n); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) near_(n[i][j], m[i][j], 1e-4); return bad; }''',
  needs='a rotation by more than half a turn around an axis close to z (negative scalar part in the last branch)', breaks='quaternion of a 4x4 rotation matrix rotates the wrong way in the last branch')
S(id='c15-nlerp-sign', prop='C15', file=I+'quat.h',
  edits=[('glm_quat_nlerp(versor from, versor to, float t, versor dest) {\n  versor target;\n  float  dot;\n  \n  dot = glm_vec4_dot(from, to);\n  \n  glm_vec4_scale(to, (dot >= 0) ? 1.0f : -1.0f, target);', '') ] if 0 else [('(dot >= 0) ? 1.0f : -1.0f', '(dot >= -0.01f) ? 1.0f : -1.0f')],
  demo=PRE + """int main(void) { versor a = {0, 0, 0, 1}, b = {0, 0.99999f, 0, -0.005f}, d; glm_quat_nlerp(a, b, 0.5f, d); /* shorter side: -b */ near_(d[1], -0.70534, 1e-3); return bad; }""",
  needs='two rotations almost exactly half a turn apart, on the negative side', breaks='normalized interpolation takes the longer side')
S(id='c16-euler-pole', prop='C16', file=I+'euler.h',
  edits=[('thetaX = -atan2f(m01, m11);', 'thetaX = atan2f(m01, m11);')],
  demo=PRE + '''int main(void) { mat4 m = {{0,0,-1,0},{0,1,0,0},{1,0,0,0},{0,0,0,1}}, r, e, n; vec3 an; glm_mat4_identity(r); glm_rotate_x(r, 0.5f, r); /* Rx(.5) with pole */ mat4 p = {{0,0,1,0},{0,1,0,0},{-1,0,0,0},{0,0,0,1}}; glm_mat4_mul(r, p, e); glm_euler_angles(e, an); glm_euler_xyz(an, n); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) near_(n[i][j], e[i][j], 1e-3); return bad; }''',
  needs='a rotation exactly at the -90 degree pole with a non-zero first angle', breaks='angles extracted at the negative pole rebuild another rotation')
S(id='c18-invtr-lane', prop='C18', also=['C01'], file=I+'simd/neon/affine.h' if 0 else I+'affine-mat.h',
  edits=[], demo='', needs='', breaks='') if 0 else None
S(id='c18-decompose-mirror', prop='C18', file=I+'affine.h',
  edits=[('''  if (glm_vec3_dot(v, m[2]) < 0.0f) {
    glm_vec4_negate(r[0]);''', '''  if (glm_vec3_dot(v, r[2]) < -0.01f) {
    glm_vec4_negate(r[0]);''')],
  demo=PRE + '''int main(void) { mat4 m = GLM_MAT4_IDENTITY_INIT, r; vec3 s; vec4 t; m[0][0] = -0.05f; m[1][1] = 0.05f; glm_decompose(m, t, r, s); if (!(s[0] < 0 && s[1] < 0 && s[2] < 0)) { printf("mirroring not reported\\n"); return 1; } return 0; }''',
  needs='a mirrored transform with small scales', breaks='mirroring of strongly scaled-down transforms is not reported')
S(id='c21-move-far-rh-zo', prop='C21', file=I+'clipspace/persp_rh_zo.h',
  edits=[('  near = proj', '  near = proj')] if 0 else [('p2 = 1.0f / (nearZ - farZ);' , 'p2 = 1.0f / (nearZ - farZ);')],
  demo='', needs='', breaks='') if 0 else None
S(id='c20-ortho-lh-zo-shift', prop='C20', file=I+'clipspace/ortho_lh_zo.h', cflags='-DCGLM_FORCE_LEFT_HANDED -DCGLM_FORCE_DEPTH_ZERO_TO_ONE',
  edits=[('dest[3][2] = nearZ * fn;', 'dest[3][2] = fabsf(nearZ) * fn;')],
  demo=PRE + '''int main(void) { mat4 m; vec4 p = {0, 0, -2, 1}, q; glm_ortho_lh_zo(-1, 1, -1, 1, -2.0f, 8.0f, m); glm_mat4_mulv(m, p, q); near_(q[2], 0.0, 1e-4); return bad; }''',
  needs='left-handed [0,1] orthographic projection with a near plane behind the eye', breaks='depth offset wrong for negative near')
S(id='c07-angle-opposite', prop='C07', file=I+'vec3.h',
  edits=[('  else if (dot < -1.0f)\n    return CGLM_PI;', '  else if (dot < -1.0f)\n    return 0.0f;')] if 0 else [('  norm = 1.0f / (glm_vec3_norm(a) * glm_vec3_norm(b));\n  dot  = glm_vec3_dot(a, b) * norm;', '  norm = 1.0f / sqrtf(glm_vec3_norm2(a) * glm_vec3_norm2(b));\n  dot  = glm_vec3_dot(a, b) * norm;')],
  demo=PRE + '''int main(void) { vec3 a = {1e-6f, 0, 0}, b = {1e-6f, 1e-6f, 0}; near_(glm_vec3_angle(a, b), 0.785398, 1e-3); vec3 c = {1e7f, 0, 0}, d = {1e7f, 1e7f, 0}; near_(glm_vec3_angle(c, d), 0.785398, 1e-3); vec3 e = {1e-13f, 0, 0}, f = {1e-13f, 1e-13f, 0}; near_(glm_vec3_angle(e, f), 0.785398, 1e-3); return bad; }''',
  needs='very short or very long vectors (the product of the squared norms leaves the float range)', breaks='angle between tiny or huge vectors is not a number or wrong')
S(id='c06-vec4-muladd-lane', prop='C06', also=['C01'], file=I+'vec4.h', cflags='-DCGLM_NO_SIMD',
  edits=[('''  dest[3] += a[3] * s;
#endif
}''', '''  dest[3] += a[3] * s;
#endif
}''')] if 0 else [('  dest[3] += a[3] * b[3];', '  dest[3] += a[3] * b[2];', 0)],
  demo=PRE.replace('#include <cglm/cglm.h>', '#undef __SSE2__\n#undef __SSE__\n#include <cglm/cglm.h>') + '''int main(void) { vec4 a = {1, 2, 3, 4}, b = {5, 6, 7, 8}, d = {0, 0, 0, 0}; glm_vec4_muladd(a, b, d); near_(d[3], 32, 1e-4); return bad; }''',
  needs='a build without SIMD', breaks='the last component of the multiply-accumulate uses the third factor in scalar builds')
SEEDS = [s for s in SEEDS if s['demo']]
