I='include/cglm/'
def add(r):
  r('aabb-frustum-early','C25 C24 C05',(I+'box.h','''  for (i = 0; i < 6; i++) {
    p  = planes[i];
    dp = p[0] * box[p[0] > 0.0f][0]
       + p[1] * box[p[1] > 0.0f][1]
       + p[2] * box[p[2] > 0.0f][2];

    if (dp < -p[3])
      return false;
  }

  return true;''','''  bool in = true;
  for (i = 5; i >= 0 && in; i--) {
    p  = planes[i];
    dp = p[3]
       + p[0] * (p[0] > 0.0f ? box[1][0] : box[0][0])
       + p[1] * (p[1] > 0.0f ? box[1][1] : box[0][1])
       + p[2] * (p[2] > 0.0f ? box[1][2] : box[0][2]);
    in = !(dp < 0.0f);
  }

  return in;'''))
  r('planes-loop','C24 C25 C05 C03',(I+'frustum.h','''  mat4 t;

  glm_mat4_transpose_to(m, t);

  glm_vec4_add(t[3], t[0], dest[0]); /* left   */
  glm_vec4_sub(t[3], t[0], dest[1]); /* right  */
  glm_vec4_add(t[3], t[1], dest[2]); /* bottom */
  glm_vec4_sub(t[3], t[1], dest[3]); /* top    */
  glm_vec4_add(t[3], t[2], dest[4]); /* near   */
  glm_vec4_sub(t[3], t[2], dest[5]); /* far    */

  glm_plane_normalize(dest[0]);
  glm_plane_normalize(dest[1]);
  glm_plane_normalize(dest[2]);
  glm_plane_normalize(dest[3]);
  glm_plane_normalize(dest[4]);
  glm_plane_normalize(dest[5]);''','''  vec4 p;
  int  i, j;

  for (i = 0; i < 6; i++) {
    for (j = 0; j < 4; j++)
      p[j] = (i & 1) ? m[j][3] - m[j][i / 2] : m[j][3] + m[j][i / 2];
    glm_plane_normalize(p);
    glm_vec4_copy(p, dest[i]);
  }'''))
  r('project-fold','C23 C03 C05',(I+'clipspace/project_no.h','''  glm_mat4_mulv(m, pos4, pos4);
  glm_vec4_scale(pos4, 1.0f / pos4[3], pos4); /* pos = pos / pos.w */
  glm_vec4_scale(pos4, 0.5f, pos4);
  glm_vec4_adds(pos4,  0.5f, pos4);

  dest[0] = pos4[0] * vp[2] + vp[0];
  dest[1] = pos4[1] * vp[3] + vp[1];
  dest[2] = pos4[2];''','''  float hw;
  glm_mat4_mulv(m, pos4, pos4);
  hw = 0.5f / pos4[3];
  dest[0] = vp[0] + vp[2] * (pos4[0] * hw + 0.5f);
  dest[1] = vp[1] + vp[3] * (pos4[1] * hw + 0.5f);
  dest[2] = pos4[2] * hw + 0.5f;'''))
  r('bounce-horner','C30',(I+'ease.h','''  tt = t * t;

  if (t < (4.0f / 11.0f))
    return (121.0f * tt) / 16.0f;

  if (t < 8.0f / 11.0f)
    return ((363.0f / 40.0f) * tt) - ((99.0f / 10.0f) * t) + (17.0f / 5.0f);

  if (t < (9.0f / 10.0f))
    return (4356.0f / 361.0f) * tt
            - (35442.0f / 1805.0f) * t
            + (16061.0f / 1805.0f);

  return ((54.0f / 5.0f) * tt) - ((513.0f / 25.0f) * t) + (268.0f / 25.0f);''','''  float r;
  tt = t * t;

  if (t >= (9.0f / 10.0f)) {
    r = (10.8f * t - 20.52f) * t + 10.72f;
  } else if (t >= 8.0f / 11.0f) {
    r = ((4356.0f / 361.0f) * t - (35442.0f / 1805.0f)) * t + (16061.0f / 1805.0f);
  } else if (t >= 4.0f / 11.0f) {
    r = ((363.0f / 40.0f) * t - (99.0f / 10.0f)) * t + (17.0f / 5.0f);
  } else {
    r = (121.0f / 16.0f) * tt;
  }
  return r;'''))
  r('sse-mulv-tree','C34 C10 C01 C02',(I+'simd/sse2/mat4.h','''  x1 = _mm_mul_ps(m3, v3);
  x1 = glmm_fmadd(m2, v2, x1);
  x1 = glmm_fmadd(m1, v1, x1);
  x1 = glmm_fmadd(m0, v0, x1);

  glmm_store(dest, x1);''','''  x1 = _mm_add_ps(glmm_fmadd(m0, v0, _mm_mul_ps(m1, v1)),
                  glmm_fmadd(m2, v2, _mm_mul_ps(m3, v3)));

  glmm_store(dest, x1);'''))
  r('sse-mul-order','C34 C10 C01 C02 C35',(I+'simd/sse2/mat4.h','''  glmm_store(dest[0], v0);
  glmm_store(dest[1], v1);
  glmm_store(dest[2], v2);
  glmm_store(dest[3], v3);
}

CGLM_INLINE
void
glm_mat4_mulv_sse2(''','''  glmm_store(dest[3], v3);
  glmm_store(dest[1], v1);
  glmm_store(dest[2], v2);
  glmm_store(dest[0], v0);
}

CGLM_INLINE
void
glm_mat4_mulv_sse2('''))
  r('decompose-reorder','C18 C02 C05',(I+'affine.h','''  glm_vec4_scale(r[0], 1.0f/s[0], r[0]);
  glm_vec4_scale(r[1], 1.0f/s[1], r[1]);
  glm_vec4_scale(r[2], 1.0f/s[2], r[2]);

  /* Note from Apple Open Source (assume that the matrix is orthonormal):
     check for a coordinate system flip.  If the determinant
     is -1, then negate the matrix and the scaling factors. */
  glm_vec3_cross(m[0], m[1], v);
  if (glm_vec3_dot(v, m[2]) < 0.0f) {
    glm_vec4_negate(r[0]);
    glm_vec4_negate(r[1]);
    glm_vec4_negate(r[2]);
    glm_vec3_negate(s);
  }''','''  /* flip when the basis is left handed */
  glm_vec3_cross(m[1], m[2], v);
  if (glm_vec3_dot(v, m[0]) < 0.0f)
    glm_vec3_negate(s);

  glm_vec4_divs(r[0], s[0], r[0]);
  glm_vec4_divs(r[1], s[1], r[1]);
  glm_vec4_divs(r[2], s[2], r[2]);'''))
  r('call-noop-wrap','C03 C02',('src/mat4.c','''glmc_mat4_mul(mat4 m1, mat4 m2, mat4 dest) {
  glm_mat4_mul(m1, m2, dest);''','''glmc_mat4_mul(mat4 m1, mat4 m2, mat4 dest) {
  mat4 t;
  glm_mat4_mul(m1, m2, t);
  glm_mat4_copy(t, dest);'''))
  r('struct-direct','C03',(I+'struct/vec3.h','''  vec3s r;
  glm_vec3_add(a.raw, b.raw, r.raw);
  return r;''','''  a.raw[0] += b.raw[0];
  a.raw[1] += b.raw[1];
  a.raw[2] += b.raw[2];
  return a;'''))
  r('vec3-angle-atan','C07 C05',(I+'vec3.h','''  float norm, dot;

  /* maybe compiler generate approximation instruction (rcp) */
  norm = 1.0f / (glm_vec3_norm(a) * glm_vec3_norm(b));
  dot  = glm_vec3_dot(a, b) * norm;''','''  float norm, dot;

  norm = sqrtf(glm_vec3_norm2(a)) * sqrtf(glm_vec3_norm2(b));
  dot  = glm_vec3_dot(a, b) / norm;'''))
  r('unproject-order','C23 C05',(I+'project.h','''  v[0] = 2.0f * (pos[0] - vp[0]) / vp[2] - 1.0f;''','''  v[0] = (pos[0] - vp[0]) * (2.0f / vp[2]) - 1.0f;'''),
   (I+'clipspace/project_no.h','''  v[0] = 2.0f * (pos[0] - vp[0]) / vp[2] - 1.0f;''','''  v[0] = (pos[0] - vp[0]) * (2.0f / vp[2]) - 1.0f;''')) if 0 else None
  r('mat3-mul-loop','C11 C34 C02 C01 C05',(I+'mat2.h','''  float a00 = m1[0][0], a01 = m1[0][1],''','''  const float a00 = m1[0][0], a01 = m1[0][1],'''))
  r('smoothstep','C31 C29',(I+'util.h','''  x = glm_clamp_zo((x - edge0) / (edge1 - edge0));''','''  x = glm_clamp_zo((x - edge0) * (1.0f / (edge1 - edge0)));''')) if 0 else None
