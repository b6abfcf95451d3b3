I='include/cglm/'
def add(r):
  r('quat-rotatev-cross2','C13 C14 C01 C02 C03',(I+'quat.h','''  glm_vec3_scale(u, 2.0f * glm_vec3_dot(u, v), v1);
  glm_vec3_scale(v, s * s - glm_vec3_dot(u, u), v2);
  glm_vec3_add(v1, v2, v1);

  glm_vec3_cross(u, v, v2);
  glm_vec3_scale(v2, 2.0f * s, v2);

  glm_vec3_add(v1, v2, dest);''','''  /* v + 2s (u x v) + 2 u x (u x v) */
  glm_vec3_cross(u, v, v1);
  glm_vec3_scale(v1, 2.0f, v1);
  glm_vec3_cross(u, v1, v2);
  glm_vec3_muladds(v1, s, v2);
  glm_vec3_add(v, v2, dest);'''))
  r('quat-inv-direct','C13 C02 C01',(I+'quat.h','''  CGLM_ALIGN(16) versor conj;
  glm_quat_conjugate(q, conj);
  glm_vec4_scale(conj, 1.0f / glm_vec4_norm2(q), dest);''','''  float n2 = glm_quat_dot(q, q);
  int   i;
  for (i = 0; i < 3; i++)
    dest[i] = -q[i] / n2;
  dest[3] = q[3] / n2;'''))
  r('corners-at-helper','C24 C02 C01',(I+'frustum.h','''  glm_vec4_sub(corners[GLM_LBF], corners[GLM_LBN], corner);
  glm_vec4_scale_as(corner, sc, corner);
  glm_vec4_add(corners[GLM_LBN], corner, planeCorners[0]);''','''  glm_vec4_sub(corners[GLM_LBF], corners[GLM_LBN], corner);
  {
    float len = glm_vec4_norm(corner);
    glm_vec4_scale(corner, len == 0.0f ? 0.0f : sc / len, corner);
  }
  glm_vec4_add(corner, corners[GLM_LBN], planeCorners[0]);'''))
  r('decomp-direct','C21 C02',(I+'clipspace/persp_rh_no.h','''  *bottom  = n_m11 * (m21 - 1.0f);
  *top     = n_m11 * (m21 + 1.0f);
  *left    = n_m00 * (m20 - 1.0f);
  *right   = n_m00 * (m20 + 1.0f);''','''  (void)n_m00;
  (void)n_m11;
  *bottom  = n * (m21 - 1.0f) / m11;
  *top     = n * (m21 + 1.0f) / m11;
  *left    = n * (m20 - 1.0f) / m00;
  *right   = n * (m20 + 1.0f) / m00;'''))
  r('persp-div','C20 C21 C23 C03',(I+'clipspace/persp_rh_no.h','''  dest[2][2] = (nearZ + farZ) * fn;
  dest[2][3] =-1.0f;
  dest[3][2] = 2.0f * nearZ * farZ * fn;

}''','''  (void)fn;
  dest[3][2] = -2.0f * (nearZ * farZ) / (farZ - nearZ);
  dest[2][3] =-1.0f;
  dest[2][2] = -(farZ + nearZ) / (farZ - nearZ);
}'''))
  r('bezier-basis','C29',(I+'bezier.h','''  x   = 1.0f - s;
  xx  = x * x;
  ss  = s * s;
  xs3 = (s - ss) * 3.0f;
  a   = p0 * xx + c0 * xs3;

  return a + s * (c1 * xs3 + p1 * ss - a);''','''  x   = 1.0f - s;
  xx  = x * x;
  ss  = s * s;
  xs3 = 3.0f * s * x;
  a   = p0 * xx + c0 * xs3;

  return a * x + s * (c1 * xs3 + p1 * ss);'''))
  r('frustum-box-first','C24 C02',(I+'frustum.h','''  glm_vec3_broadcast(FLT_MAX, min);
  glm_vec3_broadcast(-FLT_MAX, max);

  for (i = 0; i < 8; i++) {
    glm_mat4_mulv(m, corners[i], v);
''','''  glm_mat4_mulv(m, corners[7], v);
  glm_vec3_copy(v, min);
  glm_vec3_copy(v, max);

  for (i = 6; i >= 0; i--) {
    glm_mat4_mulv(m, corners[i], v);
'''))
  r('lookat-via-look','C22 C02 C03',(I+'clipspace/view_rh.h','''  dest[3][0] =-glm_vec3_dot(s, eye);
  dest[3][1] =-glm_vec3_dot(u, eye);
  dest[3][2] = glm_vec3_dot(f, eye);
  dest[0][3] = dest[1][3] = dest[2][3] = 0.0f;
  dest[3][3] = 1.0f;''','''  dest[0][3] = dest[1][3] = dest[2][3] = 0.0f;
  dest[3][0] = -(s[0] * eye[0] + (s[1] * eye[1] + s[2] * eye[2]));
  dest[3][1] = -(u[0] * eye[0] + (u[1] * eye[1] + u[2] * eye[2]));
  dest[3][2] =   f[0] * eye[0] + (f[1] * eye[1] + f[2] * eye[2]);
  dest[3][3] = 1.0f;'''))
  r('vec3-rotate-inline','C07 C01 C02',(I+'vec3.h','''  glm_vec3_scale(v, c, v1);

  glm_vec3_cross(k, v, v2);
  glm_vec3_scale(v2, s, v2);

  glm_vec3_add(v1, v2, v1);

  glm_vec3_scale(k, glm_vec3_dot(k, v) * (1.0f - c), v2);
  glm_vec3_add(v1, v2, v);''','''  glm_vec3_cross(k, v, v2);
  glm_vec3_scale(k, glm_vec3_dot(v, k), v1);
  glm_vec3_sub(v, v1, v);
  v[0] = v1[0] + v[0] * c + v2[0] * s;
  v[1] = v1[1] + v[1] * c + v2[1] * s;
  v[2] = v1[2] + v[2] * c + v2[2] * s;'''))
  r('sphere-dist','C27',(I+'sphere.h','''  return glm_vec3_distance2(s1, s2) <= glm_pow2(s1[3] + s2[3]);''','''  return !(glm_vec3_distance2(s2, s1) > glm_pow2(s2[3] + s1[3]));'''))
  r('det-scalar-cols','C10 C01',(I+'mat4.h','''  return a * (f * t[0] - g * t[1] + h * t[2])
       - b * (e * t[0] - g * t[3] + h * t[4])
       + c * (e * t[1] - f * t[3] + h * t[5])
       - d * (e * t[2] - f * t[4] + g * t[5]);''','''  {
    float u0 = a * f - b * e, u1 = a * g - c * e, u2 = a * h - d * e,
          u3 = b * g - c * f, u4 = b * h - d * f, u5 = c * h - d * g;
    return u0 * t[0] - u1 * t[1] + u2 * t[2] + u3 * t[3] - u4 * t[4] + u5 * t[5];
  }'''))
  r('mat3-inv-cofactor','C10 C01 C02',(I+'mat3.h','''  dest[0][0] = idt * c1;
  dest[0][1] = ndt * (b * i - h * c);''','''  (void)ndt;
  dest[0][0] = c1 * idt;
  dest[0][1] = (h * c - b * i) * idt;'''))
  r('plane-norm-div','C24 C02',(I+'plane.h','''  glm_vec4_scale(plane, 1.0f / norm, plane);''','''  glm_vec4_divs(plane, norm, plane);'''))
  r('project-no-fold','C23 C02 C01',(I+'clipspace/project_no.h','''  glm_vec4_scale(pos4, 1.0f / pos4[3], pos4); /* pos = pos / pos.w */
  glm_vec4_scale(pos4, 0.5f, pos4);
  glm_vec4_adds(pos4,  0.5f, pos4);
''','''  {
    float hw = 0.5f / pos4[3];
    pos4[0] = pos4[0] * hw + 0.5f;
    pos4[1] = pos4[1] * hw + 0.5f;
    pos4[2] = pos4[2] * hw + 0.5f;
  }
'''))
  r('ease-pow','C30',(I+'ease.h','''  return g * g * f + 1.0f;''','''  return 1.0f + f * g * g;'''))
  r('luminance-order','C31 C01',(I+'color.h','''  return glm_dot(rgb, l);''','''  return rgb[2] * l[2] + rgb[1] * l[1] + rgb[0] * l[0];'''))
  r('box-transform-ext','C25 C01 C02',(I+'box.h','''  /* translation + min(xa, xb) + min(ya, yb) + min(za, zb) */
  glm_vec3(m[3], v[0]);
  glm_vec3_minadd(xa, xb, v[0]);
  glm_vec3_minadd(ya, yb, v[0]);
  glm_vec3_minadd(za, zb, v[0]);
''','''  {
    int k;
    for (k = 2; k >= 0; k--)
      v[0][k] = (glm_min(xb[k], xa[k]) + glm_min(yb[k], ya[k])) + (glm_min(zb[k], za[k]) + m[3][k]);
  }
'''))
