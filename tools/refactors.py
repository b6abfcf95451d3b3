#!/usr/bin/env python3
"""Behaviour-preserving edits of recp/cglm: every check has to stay quiet on
each.  usage: refactors.py [ids...] [--checks C01,C02] ; works on scratch copies."""
import os, sys, subprocess, shutil, re
I='include/cglm/'
R={}
def r(id, checks, *subs): R[id]=(checks.split(), subs)
r('mulN-while','C05 C10 C01 C03',(I+'mat4.h','''  for (i = 2; i < len; i++)
    glm_mat4_mul(dest, *matrices[i], dest);''','''  i = 2;
  while (i < len) {
    mat4 tmp;
    glm_mat4_mul(dest, *matrices[i], tmp);
    glm_mat4_copy(tmp, dest);
    i += 1;
  }'''))
r('inv-regroup','C10 C34 C02 C01',(I+'mat4.h','idt = 1.0f/(c8*c1+c4*c9+c10*c3+c2*c7-c12*c5-c6*c11), ndt = -idt;',
 'idt = 1.0f/((c8*c1-c12*c5)+(c4*c9-c6*c11)+(c10*c3+c2*c7)), ndt = -idt;'))
r('norm-div','C06 C07 C05 C02 C01 C13',(I+'vec3.h','''  glm_vec3_scale(v, 1.0f / norm, dest);
}

/*!
 * @brief cross product of two''','''  dest[0] = v[0] / norm;
  dest[1] = v[1] / norm;
  dest[2] = v[2] / norm;
}

/*!
 * @brief cross product of two'''))
r('quat-mat-helper','C13 C14 C34 C03 C05 C01',(I+'quat.h','''CGLM_INLINE
void
glm_quat_mat4(versor q, mat4 dest) {
  float w, x, y, z,
        xx, yy, zz,
        xy, yz, xz,
        wx, wy, wz, norm, s;

  norm = glm_vec4_norm2(q);
  s    = norm > 0.0f ? 2.0f / norm : 0.0f;
''','''CGLM_INLINE
float
glm__quat_twice_inv(versor q) {
  float n = glm_vec4_norm2(q);
  if (!(n > 0.0f)) return 0.0f;
  return 2.0f / n;
}

CGLM_INLINE
void
glm_quat_mat4(versor q, mat4 dest) {
  float w, x, y, z,
        xx, yy, zz,
        xy, yz, xz,
        wx, wy, wz, s;

  s = glm__quat_twice_inv(q);
'''),(I+'quat.h','''  xx = s * x * x;   xy = s * x * y;   wx = s * w * x;
  yy = s * y * y;   yz = s * y * z;   wy = s * w * y;
  zz = s * z * z;   xz = s * x * z;   wz = s * w * z;

  dest[0][0] = 1.0f - yy - zz;
  dest[1][1] = 1.0f - xx - zz;
  dest[2][2] = 1.0f - xx - yy;

  dest[0][1] = xy + wz;
  dest[1][2] = yz + wx;
  dest[2][0] = xz + wy;

  dest[1][0] = xy - wz;
  dest[2][1] = yz - wx;
  dest[0][2] = xz - wy;

  dest[0][3] = 0.0f;
  dest[1][3] = 0.0f;
  dest[2][3] = 0.0f;
  dest[3][0] = 0.0f;
  dest[3][1] = 0.0f;
  dest[3][2] = 0.0f;
  dest[3][3] = 1.0f;''','''  { float xs = x * s, ys = y * s, zs = z * s;
  xx = xs * x;   xy = xs * y;   wx = xs * w;
  yy = ys * y;   yz = ys * z;   wy = ys * w;
  zz = zs * z;   xz = xs * z;   wz = zs * w; }

  dest[0][0] = 1.0f - (yy + zz);
  dest[0][1] = xy + wz;
  dest[0][2] = xz - wy;
  dest[0][3] = 0.0f;
  dest[1][0] = xy - wz;
  dest[1][1] = 1.0f - (xx + zz);
  dest[1][2] = yz + wx;
  dest[1][3] = 0.0f;
  dest[2][0] = xz + wy;
  dest[2][1] = yz - wx;
  dest[2][2] = 1.0f - (xx + yy);
  dest[2][3] = 0.0f;
  dest[3][0] = dest[3][1] = dest[3][2] = 0.0f;
  dest[3][3] = 1.0f;'''))
r('persp-rearr','C20 C21 C23 C24',(I+'clipspace/persp_rh_no.h','''  f  = 1.0f / tanf(fovy * 0.5f);
  fn = 1.0f / (nearZ - farZ);

  dest[0][0] = f / aspect;
  dest[1][1] = f;
  dest[2][2] = (nearZ + farZ) * fn;
  dest[2][3] =-1.0f;
  dest[3][2] = 2.0f * nearZ * farZ * fn;
''','''  float t;
  t  = tanf(fovy * 0.5f);
  f  = 1.0f / t;
  fn = farZ - nearZ;

  dest[3][2] = -(2.0f * farZ * nearZ) / fn;
  dest[2][3] =-1.0f;
  dest[2][2] = -(farZ + nearZ) / fn;
  dest[1][1] = f;
  dest[0][0] = 1.0f / (aspect * t);
'''))
r('aabb-early','C25 C24',(I+'box.h','float *p, dp;','float *p, dp;'))
r('tri-reorder','C28',(I+'ray.h','''  inv_det = 1.0f / det;
  
  glm_vec3_sub(origin, v0, t);

  u = inv_det * glm_vec3_dot(t, p);
  if (u < 0.0f || u > 1.0f)
    return false;

  glm_vec3_cross(t, edge1, q);

  v = inv_det * glm_vec3_dot(direction, q);
  if (v < 0.0f || u + v > 1.0f)
    return false;

  dist = inv_det * glm_vec3_dot(edge2, q);
''','''  glm_vec3_sub(origin, v0, t);
  glm_vec3_cross(t, edge1, q);

  inv_det = 1.0f / det;
  u    = glm_vec3_dot(t, p) / det;
  v    = glm_vec3_dot(direction, q) / det;
  dist = inv_det * glm_vec3_dot(edge2, q);

  if (!(u >= 0.0f && v >= 0.0f && u <= 1.0f && u + v <= 1.0f))
    return false;
'''))
r('euler-reorder','C16 C17 C05 C01',(I+'euler.h','''  czsx = cz * sx;
  cxcz = cx * cz;
  sysz = sy * sz;

  dest[0][0] =  cy * cz;
  dest[0][1] =  czsx * sy + cx * sz;
  dest[0][2] = -cxcz * sy + sx * sz;
  dest[1][0] = -cy * sz;
  dest[1][1] =  cxcz - sx * sysz;
  dest[1][2] =  czsx + cx * sysz;
  dest[2][0] =  sy;
  dest[2][1] = -cy * sx;
  dest[2][2] =  cx * cy;
  dest[0][3] =  0.0f;''','''  czsx = sy * sx;
  cxcz = sy * cx;
  sysz = -sy;

  dest[2][2] =  cy * cx;
  dest[2][1] = -(sx * cy);
  dest[2][0] = -sysz;
  dest[1][2] =  cz * sx + cxcz * sz;
  dest[1][1] =  cx * cz - czsx * sz;
  dest[1][0] = -cy * sz;
  dest[0][2] =  sx * sz - cxcz * cz;
  dest[0][1] =  cx * sz + czsx * cz;
  dest[0][0] =  cz * cy;
  dest[0][3] =  0.0f;'''))
r('bezier-direct','C29',(I+'bezier.h','''  x   = 1.0f - s;
  xx  = x * x;
  ss  = s * s;
  xs3 = (s - ss) * 3.0f;
  a   = p0 * xx + c0 * xs3;

  return a + s * (c1 * xs3 + p1 * ss - a);''','''  x   = 1.0f - s;
  xx  = x * x;
  ss  = s * s;
  xs3 = 3.0f * s * xx;
  a   = 3.0f * ss * x;

  return p0 * (xx * x) + c0 * xs3 + c1 * a + p1 * (ss * s);'''),
 (I+'bezier.h','''  ss = s  * s;
  a  = ss + ss;
  c  = a  + ss;
  b  = a  * s;
  d  = s  * ss;
  f  = d  - ss;
  e  = b  - c;

  return p0 * (e + 1.0f) + t0 * (f - ss + s) + t1 * f - p1 * e;''','''  ss = s * s;
  a  = s * ss;
  b  = 2.0f * a - 3.0f * ss;
  c  = a - 2.0f * ss + s;
  d  = a - ss;
  e  = -b;
  f  = 1.0f - e;
  return f * p0 + c * t0 + d * t1 + e * p1;'''))
r('sphere-merge','C27',(I+'sphere.h','''  radii = glm_max(radii, s1[3]);
  radii = glm_max(radii, s2[3]);

  glm_vec3_center(s1, s2, dest);
  dest[3] = radii;''','''  if (s1[3] > radii) radii = s1[3];
  if (s2[3] > radii) radii = s2[3];

  dest[0] = 0.5f * (s1[0] + s2[0]);
  dest[1] = 0.5f * (s1[1] + s2[1]);
  dest[2] = 0.5f * (s1[2] + s2[2]);
  dest[3] = radii;'''),(I+'sphere.h','glm_vec3_distance2(s1, s2) <= glm_pow2(s1[3] + s2[3])','glm_pow2(s2[3] + s1[3]) >= glm_vec3_distance2(s2, s1)'))
r('lookat-rest','C22 C23 C05',(I+'clipspace/view_rh.h','''  glm_vec3_crossn(f, up, s);
  glm_vec3_cross(s, f, u);

  dest[0][0] = s[0];
  dest[0][1] = u[0];
  dest[0][2] =-f[0];
  dest[1][0] = s[1];
  dest[1][1] = u[1];
  dest[1][2] =-f[1];
  dest[2][0] = s[2];
  dest[2][1] = u[2];
  dest[2][2] =-f[2];
  dest[3][0] =-glm_vec3_dot(s, eye);
  dest[3][1] =-glm_vec3_dot(u, eye);
  dest[3][2] = glm_vec3_dot(f, eye);''','''  vec3 tr;
  int  i;

  glm_vec3_cross(f, up, s);
  glm_vec3_normalize(s);
  glm_vec3_cross(s, f, u);

  tr[0] = -glm_vec3_dot(s, eye);
  tr[1] = -glm_vec3_dot(u, eye);
  tr[2] = glm_vec3_dot(f, eye);

  for (i = 0; i < 3; i++) {
    dest[i][0] = s[i];
    dest[i][1] = u[i];
    dest[i][2] = -f[i];
    dest[3][i] = tr[i];
  }'''))
r('slerp-restructure','C15 C13 C05',(I+'quat.h','''  if (fabsf(cosTheta) >= 1.0f) {
    glm_quat_copy(q1, dest);
    return;
  }

  if (cosTheta < 0.0f) {
    glm_vec4_negate(q1);
    cosTheta = -cosTheta;
  }

  sinTheta = sqrtf(1.0f - cosTheta * cosTheta);

  /* LERP to avoid zero division */
  if (fabsf(sinTheta) < 0.001f) {
    glm_quat_lerp(q1, to, t, dest);
    return;
  }

  /* SLERP */
  angle = acosf(cosTheta);
  glm_vec4_scale(q1, sinf((1.0f - t) * angle), q1);
  glm_vec4_scale(to, sinf(t * angle), q2);

  glm_vec4_add(q1, q2, q1);
  glm_vec4_scale(q1, 1.0f / sinTheta, dest);
}

/*!
 * @brief interpolates between two quaternions
 *        using spherical linear interpolation (SLERP) and always''','''  if (cosTheta >= 1.0f || cosTheta <= -1.0f) {
    glm_quat_copy(from, dest);
    return;
  }

  if (!(cosTheta >= 0.0f)) {
    cosTheta = -cosTheta;
    glm_vec4_scale(q1, -1.0f, q1);
  }

  sinTheta = sqrtf((1.0f - cosTheta) * (1.0f + cosTheta));

  /* LERP to avoid zero division */
  if (sinTheta < 0.001f) {
    glm_quat_lerp(q1, to, t, dest);
    return;
  }

  /* SLERP */
  angle = atan2f(sinTheta, cosTheta);
  glm_vec4_scale(q1, sinf((1.0f - t) * angle) / sinTheta, q1);
  glm_vec4_scale(to, sinf(t * angle) / sinTheta, q2);
  glm_vec4_add(q1, q2, dest);
}

/*!
 * @brief interpolates between two quaternions
 *        using spherical linear interpolation (SLERP) and always'''))
r('rotate-make','C17 C18 C05 C01',(I+'affine.h','''  glm_vec3_normalize_to(axis, axisn);
  glm_vec3_scale(axisn, 1.0f - c, v);
  glm_vec3_scale(axisn, sinf(angle), vs);

  glm_vec3_scale(axisn, v[0], m[0]);
  glm_vec3_scale(axisn, v[1], m[1]);
  glm_vec3_scale(axisn, v[2], m[2]);

  m[0][0] += c;       m[1][0] -= vs[2];   m[2][0] += vs[1];
  m[0][1] += vs[2];   m[1][1] += c;       m[2][1] -= vs[0];
  m[0][2] -= vs[1];   m[1][2] += vs[0];   m[2][2] += c;
''','''  int i, j;
  glm_vec3_copy(axis, axisn);
  glm_vec3_normalize(axisn);
  glm_vec3_scale(axisn, 1.0f - c, v);
  glm_vec3_scale(axisn, sinf(angle), vs);

  for (i = 0; i < 3; i++)
    for (j = 0; j < 3; j++)
      m[i][j] = v[i] * axisn[j] + (i == j ? c : 0.0f);

  m[0][1] += vs[2];
  m[0][2] -= vs[1];
  m[1][0] -= vs[2];
  m[1][2] += vs[0];
  m[2][0] += vs[1];
  m[2][1] -= vs[0];
'''))
r('aabb-merge-loop','C27 C25 C02 C05 C01',(I+'box.h','''  dest[0][0] = glm_min(box1[0][0], box2[0][0]);
  dest[0][1] = glm_min(box1[0][1], box2[0][1]);
  dest[0][2] = glm_min(box1[0][2], box2[0][2]);

  dest[1][0] = glm_max(box1[1][0], box2[1][0]);
  dest[1][1] = glm_max(box1[1][1], box2[1][1]);
  dest[1][2] = glm_max(box1[1][2], box2[1][2]);''','''  int i;
  for (i = 2; i >= 0; i--) {
    float hi = glm_max(box1[1][i], box2[1][i]);
    dest[0][i] = glm_min(box1[0][i], box2[0][i]);
    dest[1][i] = hi;
  }'''))
sys.dont_write_bytecode=True
try:
    import refactors2; refactors2.add(r)
    import refactors3; refactors3.add(r)
    import refactors4; refactors4.add(r)
except ImportError: pass
if __name__=='__main__':
    args=[a for a in sys.argv[1:] if not a.startswith('--')]
    force=None
    for a in sys.argv[1:]:
        if a.startswith('--checks='): force=a[9:].split(',')
    V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for id,(checks,subs) in R.items():
        if args and id not in args: continue
        C='/tmp/refac.%d'%os.getpid()
        subprocess.run(['rm','-rf',C]); subprocess.run(['cp','-a','/repo',C])
        ok=True
        for f,a,b in subs:
            p=os.path.join(C,f); s=open(p).read()
            if a not in s: print(id,'PATTERN MISSING',f); ok=False; break
            open(p,'w').write(s.replace(a,b,1))
        if ok:
            for c in (force or checks):
                e=dict(os.environ,CGLM_REPO=C,VERIF_TIER='quick',VERIF_SEED='1')
                p=subprocess.run(['python3','check.py',c],cwd=V,env=e,capture_output=True,text=True)
                if p.returncode: print(id,c,'ALARM',p.returncode,(p.stdout+p.stderr)[:400])
                else: print(id,c,'quiet')
                sys.stdout.flush()
        subprocess.run(['rm','-rf',C])
