I='include/cglm/'
def add(r):
  r('hermite-horner','C29 C05 C01',(I+'bezier.h','''  return p0 * (e + 1.0f) + t0 * (f - ss + s) + t1 * f - p1 * e;''','''  (void)e;
  return ((2.0f * (p0 - p1) + t0 + t1) * s + (3.0f * (p1 - p0) - 2.0f * t0 - t1)) * s * s + t0 * s + p0;'''))
  r('proj-div','C07 C02 C01 C03',(I+'vec3.h','''  glm_vec3_scale(b,
                 glm_vec3_dot(a, b) / glm_vec3_norm2(b),
                 dest);''','''  float k = glm_vec3_dot(b, a) / glm_vec3_dot(b, b);
  dest[0] = k * b[0];
  dest[1] = k * b[1];
  dest[2] = k * b[2];'''))
  r('refract-order','C07 C02 C01',(I+'vec3.h','''  glm_vec3_scale(n, eni + sqrtf(k), nk);
  glm_vec3_scale(v, eta, dest);
  glm_vec3_sub(dest, nk, dest);
  return true;''','''  glm_vec3_scale(v, eta, nk);
  glm_vec3_mulsubs(n, sqrtf(k) + eni, nk);
  glm_vec3_copy(nk, dest);
  return true;'''))
  r('reflect-direct','C07 C02 C01',(I+'vec3.h','''  vec3 temp;
  glm_vec3_scale(n, 2.0f * glm_vec3_dot(v, n), temp);
  glm_vec3_sub(v, temp, dest);''','''  float k = glm_vec3_dot(n, v);
  k += k;
  dest[0] = v[0] - k * n[0];
  dest[1] = v[1] - k * n[1];
  dest[2] = v[2] - k * n[2];''')) if 0 else None
  r('pick-direct','C23 C03 C01',(I+'project.h','''  glm_translate_make(res, v);
  
  v[0] = vp[2] / size[0];
  v[1] = vp[3] / size[1];
  v[2] = 1.0f;

  glm_scale(res, v);
''','''  glm_mat4_identity(res);
  res[0][0] = vp[2] / size[0];
  res[1][1] = vp[3] / size[1];
  res[3][0] = v[0];
  res[3][1] = v[1];
'''))
  r('quat-from-mat-div','C14 C16 C01',(I+'mat4.h','''    r       = sqrtf(1.0f + trace);
    rinv    = 0.5f / r;

    dest[0] = rinv * (m[1][2] - m[2][1]);
    dest[1] = rinv * (m[2][0] - m[0][2]);
    dest[2] = rinv * (m[0][1] - m[1][0]);
    dest[3] = r    * 0.5f;''','''    r       = sqrtf(trace + 1.0f) * 0.5f;
    rinv    = 4.0f * r;

    dest[3] = r;
    dest[2] = (m[0][1] - m[1][0]) / rinv;
    dest[1] = (m[2][0] - m[0][2]) / rinv;
    dest[0] = (m[1][2] - m[2][1]) / rinv;'''))
  r('ray-sphere-minmax','C28 C04 C01',(I+'ray.h','''  /* adjust t1 and t2 to ensure t1 is the closer intersection */
  if (_t1 > _t2) {
    tmp = _t1;
    _t1 = _t2;
    _t2 = tmp;
  }

  *t1 = _t1;
  *t2 = _t2;
''','''  tmp = glm_max(_t1, _t2);
  _t1 = glm_min(_t1, _t2);
  _t2 = tmp;

  *t2 = _t2;
  *t1 = _t1;
'''))
  r('quat-angle-norm','C13 C14',(I+'quat.h','''  return 2.0f * atan2f(glm_quat_imaglen(q), glm_quat_real(q));''','''  float s = sqrtf(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]);
  return atan2f(s, q[3]) * 2.0f;'''))
  r('rotate2d-make','C19 C02 C01',(I+'affine2d.h','''  m[0][0] = m00 * c + m10 * s;
  m[0][1] = m01 * c + m11 * s;
  m[0][2] = m02 * c + m12 * s;

  m[1][0] = m00 * -s + m10 * c;
  m[1][1] = m01 * -s + m11 * c;
  m[1][2] = m02 * -s + m12 * c;''','''  m[0][0] = s * m10 + c * m00;  m[1][0] = c * m10 - s * m00;
  m[0][1] = s * m11 + c * m01;  m[1][1] = c * m11 - s * m01;
  m[0][2] = s * m12 + c * m02;  m[1][2] = c * m12 - s * m02;'''))
  r('aabb-sphere-clamp','C25 C01',(I+'box.h','''  float dmin;
  int   a, b, c;

  a = (s[0] < box[0][0]) + (s[0] > box[1][0]);
  b = (s[1] < box[0][1]) + (s[1] > box[1][1]);
  c = (s[2] < box[0][2]) + (s[2] > box[1][2]);

  dmin  = glm_pow2((s[0] - box[s[0] > box[1][0]][0]) * (a != 0))
        + glm_pow2((s[1] - box[s[1] > box[1][1]][1]) * (b != 0))
        + glm_pow2((s[2] - box[s[2] > box[1][2]][2]) * (c != 0));

  return dmin <= glm_pow2(s[3]);''','''  float dmin = 0.0f, e;
  int   i;

  for (i = 0; i < 3; i++) {
    if (s[i] < box[0][i])
      e = box[0][i] - s[i];
    else if (s[i] > box[1][i])
      e = s[i] - box[1][i];
    else
      e = 0.0f;

    dmin += e * e;
  }

  return dmin <= s[3] * s[3];'''))
  r('center-pairs','C24 C02 C01',(I+'frustum.h','''  glm_vec4_copy(corners[0], center);

  glm_vec4_add(corners[1], center, center);
  glm_vec4_add(corners[2], center, center);
  glm_vec4_add(corners[3], center, center);
  glm_vec4_add(corners[4], center, center);
  glm_vec4_add(corners[5], center, center);
  glm_vec4_add(corners[6], center, center);
  glm_vec4_add(corners[7], center, center);

  glm_vec4_scale(center, 0.125f, dest);''','''  int i;

  glm_vec4_zero(center);
  for (i = 7; i >= 0; i--)
    glm_vec4_muladds(corners[i], 0.125f, center);

  glm_vec4_copy(center, dest);'''))
  r('tri-cross-order','C28 C01',(I+'ray.h','''  inv_det = 1.0f / det;
  
  glm_vec3_sub(origin, v0, t);

  u = inv_det * glm_vec3_dot(t, p);
  if (u < 0.0f || u > 1.0f)
    return false;
''','''  inv_det = 1.0f / det;

  glm_vec3_sub(origin, v0, t);

  u = glm_vec3_dot(t, p) / det;
  if (!(u >= 0.0f && u <= 1.0f))
    return false;
'''))
  r('casteljau-slope','C29 C05',(I+'bezier.h','''    /* de Casteljau Subdivision */
    a  = (p0 + c0) * 0.5f;
    b  = (c0 + c1) * 0.5f;
    c  = (c1 + p1) * 0.5f;''','''    /* de Casteljau Subdivision */
    a  = p0 + (c0 - p0) * 0.5f;
    b  = c0 + (c1 - c0) * 0.5f;
    c  = c1 + (p1 - c1) * 0.5f;'''))
  r('from-vecs-inplace','C14 C01 C02',(I+'quat.h','''  glm_quat_init(dest, axis[0], axis[1], axis[2], cos_half_theta);
  glm_quat_normalize(dest);''','''  {
    float n = 1.0f / sqrtf(glm_vec3_norm2(axis) + cos_half_theta * cos_half_theta);
    glm_quat_init(dest, axis[0] * n, axis[1] * n, axis[2] * n, cos_half_theta * n);
  }'''))
  r('slerp-sin-angle','C15 C05 C01',(I+'quat.h','''  angle = acosf(cosTheta);
  glm_vec4_scale(q1, sinf((1.0f - t) * angle), q1);
  glm_vec4_scale(to, sinf(t * angle), q2);

  glm_vec4_add(q1, q2, q1);
  glm_vec4_scale(q1, 1.0f / sinTheta, dest);''','''  angle = atan2f(sinTheta, cosTheta);
  glm_vec4_scale(q1, sinf(angle - t * angle) / sinTheta, q1);
  glm_vec4_scale(to, sinf(t * angle) / sinTheta, q2);

  glm_vec4_add(q2, q1, dest);'''))
