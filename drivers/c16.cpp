// C16: Euler angles
// API: euler euler_*
#include "quat.hpp"
#define FILL(d) for (float &x_ : d) x_ = 12345.f
static const char *ORD[6] = {"XYZ", "XZY", "YXZ", "YZX", "ZXY", "ZYX"};
static const int OA[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
static M<4, 4> refm(const float *a, int o) { auto m = idM<4>(); for (int k = 0; k < 3; k++) { float ax[3] = {0, 0, 0}; ax[OA[o][k]] = 1; m = mulM(m, rotM(a[OA[o][k]], ax)); } for (auto &x : m.a) x = R(x.v, 1); return m; }
static Q refq(const float *a, int o) { Q q = {0, 0, 0, 1}; for (int k = 0; k < 3; k++) { int i = OA[o][k]; q = qmul(q, qaxis(a[i], i == 0, i == 1, i == 2)); } return q; }
static FV grid(bool big) { FV v; int n = big ? 24 : 12; for (int k = -n; k <= n; k++) v.push_back((float)(k * M_PI / 12)); for (float x : {0.1f, -0.3f, 1.f, 1e-3f, -1e-6f, 1.5707f, 1.5708f, -1.57f, 4.f, 100.f, -250.f, -0.04f, 30.f, -70.f, 1.568f, -1.566f, 1.55f, 3.137f, -3.1f, 0.007f}) v.push_back(x); return v; }
SITE(forward) { FV G = grid(r.thorough); typedef void (*MF)(float *, float *); MF mf[6] = {r.f.glm_euler_xyz, r.f.glm_euler_xzy, r.f.glm_euler_yxz, r.f.glm_euler_yzx, r.f.glm_euler_zxy, r.f.glm_euler_zyx}, qf[6] = {r.f.glm_euler_xyz_quat, r.f.glm_euler_xzy_quat, r.f.glm_euler_yxz_quat, r.f.glm_euler_yzx_quat, r.f.glm_euler_zxy_quat, r.f.glm_euler_zyx_quat}, rf[6] = {r.f.glm_euler_xyz_quat_rh, r.f.glm_euler_xzy_quat_rh, r.f.glm_euler_yxz_quat_rh, r.f.glm_euler_yzx_quat_rh, r.f.glm_euler_zxy_quat_rh, r.f.glm_euler_zyx_quat_rh}, lf[6] = {r.f.glm_euler_xyz_quat_lh, r.f.glm_euler_xzy_quat_lh, r.f.glm_euler_yxz_quat_lh, r.f.glm_euler_yzx_quat_lh, r.f.glm_euler_zxy_quat_lh, r.f.glm_euler_zyx_quat_lh};
  for (float x : G) for (float y : G) for (float z : G) for (int o = 0; o < 6; o++) { r.tick(); A32 float a[3] = {x, y, z}, m[16], q[4]; A32 float an[3] = {x, y, -z}; r.show("angles", a, 3); if (r.on()) printf("  order %s\n", ORD[o]); auto e = refm(a, o); double K = 12;
    if (mf[o]) { FILL(m); ++r.calls; mf[o](a, m); near(r, "matrix", m, e, K); }
    if (o == 0 && HAVE(glm_euler)) { FILL(m); F(glm_euler)(a, m); near(r, "glm_euler is XYZ", m, e, K); }
    Q er = refq(a, o), el = refq(an, o); const double vr[4] = {er.x, er.y, er.z, er.w}, vl[4] = {el.x, el.y, el.z, el.w};
    if (qf[o]) { FILL(q); ++r.calls; qf[o](a, q); for (int k = 0; k < 4; k++) r.near("quat", q[k], R(r.lh ? vl[k] : vr[k], 1), K); }
    if (rf[o]) { FILL(q); ++r.calls; rf[o](a, q); for (int k = 0; k < 4; k++) r.near("quat_rh", q[k], R(vr[k], 1), K); }
    if (lf[o]) { FILL(q); ++r.calls; lf[o](a, q); for (int k = 0; k < 4; k++) r.near("quat_lh", q[k], R(vl[k], 1), K); }
    if (HAVE(glm_euler_by_order)) { int seq = OA[o][0] | OA[o][1] << 2 | OA[o][2] << 4; FILL(m); F(glm_euler_by_order)(a, seq, m); near(r, "euler_by_order", m, e, 16); }
    if (HAVE(glm_euler_order)) { int ord[3] = {OA[o][0], OA[o][1], OA[o][2]}; int seq = F(glm_euler_order)(ord); r.eqi("euler_order", seq, ord[0] | ord[1] << 2 | ord[2] << 4); } } }
static void extract(Run &r, const float *m0) { A32 float m[16], a[3]; memcpy(m, m0, 64); FILL(a); F(glm_euler_angles)(m, a); r.show("m", m, 16); r.show("angles", a, 3); r.ok("ranges", fabs(a[1]) <= M_PI / 2 + 1e-6 && fabs(a[0]) <= M_PI + 1e-6 && fabs(a[2]) <= M_PI + 1e-6); auto e = refm(a, 0); double cy = sqrt(std::max(0.0, 1 - (double)m[8] * m[8])); double tol = 5e-6 + 6e-7 / std::max(cy, 3e-4); for (int c = 0; c < 3; c++) for (int w = 0; w < 3; w++) r.ok("the angles reproduce the rotation", fabs(m[c * 4 + w] - e(c, w).v) <= tol); }
SITE(extract_grid) { if (!HAVE(glm_euler_angles)) return; FV G = grid(true); for (float x : G) for (float y : G) for (float z : G) { r.tick(); float a[3] = {x, y, z}, m[16]; auto e = refm(a, 0); stf<4>(e, m); m[12] = 3; m[13] = -4; r.show("from", a, 3); extract(r, m); } }
SITE(extract_recover) { if (!HAVE(glm_euler_angles) || !HAVE(glm_euler_xyz)) return; for (int i = -23; i <= 23; i++) for (int j = -11; j <= 11; j++) for (int k = -23; k <= 23; k++) { r.tick(); A32 float a[3] = {(float)(i * M_PI / 24), (float)(j * M_PI / 24), (float)(k * M_PI / 24)}, m[16], b[3]; r.show("angles", a, 3); F(glm_euler_xyz)(a, m); F(glm_euler_angles)(m, b); for (int l = 0; l < 3; l++) r.near("recovered", b[l], R(a[l], 4), 32); } }
SITE(gimbal) { if (!HAVE(glm_euler_angles)) return; for (int i = -24; i <= 24; i++) for (float s : {1.f, -1.f}) for (int k = 0; k < 3; k++) { r.tick(); double t = i * M_PI / 24; A32 float m[16] = {0}, a[3]; float c = cos(t), sn = sin(t); m[15] = 1; float y = k == 0 ? s : s * (k == 1 ? 1.0000001f : 1.000001f);
    // exact pole: Rx(t) * Ry(+-90)
    m[8] = y; m[1] = s * sn; m[2] = -s * c; m[5] = c; m[6] = sn; r.show("m", m, 16); FILL(a); F(glm_euler_angles)(m, a); r.show("angles", a, 3); r.near("pitch", a[1], R(s * M_PI / 2, 2), 8); auto e = refm(a, 0); for (int cc = 0; cc < 3; cc++) for (int w = 0; w < 3; w++) r.ok("the angles reproduce the rotation", fabs(m[cc * 4 + w] - e(cc, w).v) <= 1e-5); } }
int main(int c, char **v) { return cglmv_main(c, v); }
