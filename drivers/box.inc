// shared by C25 (N=3) and C26 (N=2): PX is the function prefix, MN the matrix size
#define FILL(d) for (float &x_ : d) x_ = 12345.f
struct Iv { float lo, hi; };
static const Iv IV[] = {{0, 1}, {-2, 3}, {1, 1}, {-5, -4}, {1, 4}, {-1, 0}, {-1000, 1000}, {0.5f, 0.75f}};
static const float SC[] = {1, 0.04f, 2e-3f, 60, 7e4f, 7, 900, 3e-5f, 2e6f};   // the same configurations at other magnitudes
typedef std::array<float, 2 * N> Box;
static std::vector<Box> boxes(int k) { std::vector<Box> o; size_t n = 1; for (int i = 0; i < N; i++) n *= k; for (size_t c = 0; c < n; c++) { Box b; size_t x = c; for (int i = 0; i < N; i++) { b[i] = IV[x % k].lo; b[N + i] = IV[x % k].hi; x /= k; } o.push_back(b); } return o; }
static std::vector<Box> fewboxes() { auto b = boxes(8); std::vector<Box> o; for (size_t i = 0; i < b.size(); i += N == 3 ? 5 : 1) o.push_back(b[i]); return o; }
SITE(pairs) { auto A = N == 3 ? fewboxes() : boxes(8), C = boxes(N == 3 && !r.thorough ? 6 : 8); A.push_back(Box{}); C.push_back(Box{}); size_t sx = 0; for (auto &x : A) for (auto &y : C) for (int rep = 0; rep < 2; rep++) { r.tick(); A32 float a[2 * N], b[2 * N], d[2 * N]; memcpy(a, &x, sizeof a); memcpy(b, &y, sizeof b);
    bool over = true, in = true; float mg[2 * N], cr[2 * N]; const int si = rep ? 1 + sx++ % 80 : 0; const float sa = SC[si % 9], sb = SC[si / 9]; for (int i = 0; i < 2 * N; i++) a[i] *= sa, b[i] *= sb; r.show("box", a, 2 * N); r.show("other", b, 2 * N); for (int i = 0; i < N; i++) { over &= a[i] <= b[N + i] && a[N + i] >= b[i]; in &= a[i] <= b[i] && a[N + i] >= b[N + i]; mg[i] = std::min(a[i], b[i]); mg[N + i] = std::max(a[N + i], b[N + i]); cr[i] = std::max(a[i], b[i]); cr[N + i] = std::min(a[N + i], b[N + i]); }
    if (HAVE(PX(aabb))) r.eqi("overlap", F(PX(aabb))(a, b), over);
    if (HAVE(PX(contains))) r.eqi("contains", F(PX(contains))(a, b), in);
    if (HAVE(PX(merge))) { FILL(d); F(PX(merge))(a, b, d); r.eqv("merge", d, mg, 2 * N); }
    if (HAVE(PX(crop))) { FILL(d); F(PX(crop))(a, b, d); r.eqv("crop", d, cr, 2 * N); }
    if (HAVE(PX(crop_until))) for (auto &z : {A[1], A[A.size() / 2], A[A.size() - 2]}) { A32 float c[2 * N]; memcpy(c, &z, sizeof c); for (float &q : c) q *= SC[(si * 7 + 4 * rep) % 9]; FILL(d); F(PX(crop_until))(a, b, c, d); float e[2 * N]; for (int i = 0; i < N; i++) { e[i] = std::min(cr[i], c[i]); e[N + i] = std::max(cr[N + i], c[N + i]); } r.show("clamp", c, 2 * N); r.eqv("crop_until", d, e, 2 * N); } } }
// bounds that almost coincide
SITE(near_pairs) { auto A = fewboxes(); int q = 0; for (auto &x : A) for (int i = 0; i < 2 * N; i++) for (int j = 0; j < 3; j++) for (int e = 0; e < 9; e++) { r.tick(); A32 float a[2 * N], b[2 * N], d[2 * N], p[N]; memcpy(a, &x, sizeof a); const float s = SC[q++ % 9]; for (float &y : a) y *= s; memcpy(b, a, sizeof b);
    // the other box: the same one, or adjoining it, or a part of it; one bound off by an ulp or a little
    const int ax = i % N; if (j == 1) { if (i < N) { b[ax] -= 2 * s; b[N + ax] = a[ax]; } else { b[N + ax] += 3 * s; b[ax] = a[N + ax]; } } else if (j == 2) for (int k = 0; k < N; k++) if (k != ax) { float w = b[N + k] - b[k]; b[k] += 0.25f * w; b[N + k] -= 0.25f * w; }
    float &t = b[j == 1 ? (i < N ? N + ax : ax) : i], ex = a[N + ax] - a[ax] + s; t = e < 6 ? t + (float)NEARD[e] * ex : e == 6 ? nextafterf(t, INFINITY) : e == 7 ? nextafterf(t, -INFINITY) : t;
    bool over = true, in = true; float mg[2 * N], cr[2 * N]; r.show("box", a, 2 * N); r.show("other", b, 2 * N); for (int k = 0; k < N; k++) { over &= a[k] <= b[N + k] && a[N + k] >= b[k]; in &= a[k] <= b[k] && a[N + k] >= b[N + k]; mg[k] = std::min(a[k], b[k]); mg[N + k] = std::max(a[N + k], b[N + k]); cr[k] = std::max(a[k], b[k]); cr[N + k] = std::min(a[N + k], b[N + k]); }
    if (HAVE(PX(aabb))) { r.eqi("overlap", F(PX(aabb))(a, b), over); r.eqi("overlap, exchanged", F(PX(aabb))(b, a), over); } if (HAVE(PX(contains))) r.eqi("contains", F(PX(contains))(a, b), in);
    if (HAVE(PX(merge))) { FILL(d); F(PX(merge))(a, b, d); r.eqv("merge", d, mg, 2 * N); } if (HAVE(PX(crop))) { FILL(d); F(PX(crop))(a, b, d); r.eqv("crop", d, cr, 2 * N); }
    if (HAVE(PX(point))) { bool pin = true; for (int k = 0; k < N; k++) { p[k] = b[(i + k) % 2 * N + k]; pin &= p[k] >= a[k] && p[k] <= a[N + k]; } r.show("point", p, N); r.eqi("point inside", F(PX(point))(a, p), pin); } } }
SITE(single) { for (auto &x : boxes(8)) for (float sc : {1.f, 0.1f, 1e8f, 1e-8f, 7.f, 40.f, 700.f, 2e4f, 3e-3f, 2e-5f}) { r.tick(); A32 float a[2 * N], d[2 * N], c[N]; double s2 = 0, m2 = 0; for (int i = 0; i < 2 * N; i++) a[i] = x[i] * sc; for (int i = 0; i < N; i++) { double e = (double)a[N + i] - a[i]; s2 += e * e; m2 += (fabs(a[N + i]) + fabs(a[i])) * fabs(e); } r.show("box", a, 2 * N); double sz = sqrt(s2), sm = sz > 0 ? std::max(sz, m2 / sz) : 0;
    if (HAVE(SIZE)) r.near("size", F(SIZE)(a), R(sz, sm), 16);
    if (HAVE(PX(radius))) r.near("radius", F(PX(radius))(a), R(sz / 2, sm), 16);
    if (HAVE(PX(center))) { FILL(c); F(PX(center))(a, c); for (int i = 0; i < N; i++) r.near("center", c[i], R(((double)a[i] + a[N + i]) / 2, fabs(a[i]) + fabs(a[N + i])), 4); }
    if (HAVE(PX(isvalid))) r.eqi("finite box is valid", F(PX(isvalid))(a), 1);
    if (HAVE(PX(invalidate))) { memcpy(d, a, sizeof d); F(PX(invalidate))(d); float e[2 * N]; for (int i = 0; i < N; i++) { e[i] = FLT_MAX; e[N + i] = -FLT_MAX; } r.eqv("invalidated box is the neutral element of merging", d, e, 2 * N); if (HAVE(PX(isvalid))) r.eqi("invalidated box is not valid", F(PX(isvalid))(d), 0);
      if (HAVE(PX(merge))) { A32 float o[2 * N]; FILL(o); F(PX(merge))(d, a, o); r.eqv("merging with an invalidated box gives the box", o, a, 2 * N); } }
    for (int i = 0; HAVE(PX(isvalid)) && i < 2 * N; i++) { memcpy(d, a, sizeof d); d[i] = i < N ? FLT_MAX : -FLT_MAX; r.show("invalidated component", i); r.eqi("a box with one inverted infinite bound is not valid", F(PX(isvalid))(d), 0); }
    EXTRA_SINGLE } }
SITE(points) { if (!HAVE(PX(point))) return; auto P = product<N>({0.f, 1.f, -2.f, 3.f, 0.75f, -4.5f, 1000.f}); for (float sc : SC) for (auto &x : boxes(sc == 1 ? 8 : 5)) for (auto &p : P) { r.tick(); A32 float a[2 * N], q[N]; memcpy(a, &x, sizeof a); memcpy(q, p.a, sizeof q); for (float &y : a) y *= sc; for (float &y : q) y *= sc; bool e = true; for (int i = 0; i < N; i++) e &= q[i] >= a[i] && q[i] <= a[N + i]; r.show("box", a, 2 * N); r.show("point", q, N); r.eqi("point inside", F(PX(point))(a, q), e);
    for (int i = 0; i < N && p.a[0] == 0; i++) for (int s = 0; s < 2; s++) for (float dir : {-INFINITY, INFINITY}) { for (int k = 0; k < N; k++) q[k] = a[k + (k == i && s ? N : 0)]; q[i] = nextafterf(a[i + s * N], dir); bool ee = q[i] >= a[i] && q[i] <= a[N + i]; r.show("point", q, N); r.eqi("point one step from a face", F(PX(point))(a, q), ee); } } }
SITE(spheres) { if (!HAVE(BALL)) return; auto P = product<N>({0.f, 1.f, -2.f, 3.5f, 0.625f, -8.f, 7.f, -5.f}); for (float sc : {1.f, 1.f / 64, 1.f / 1024, 256.f, 8.f, 16384.f, 1.f / 65536}) for (auto &x : boxes(sc == 1 ? 8 : 5)) for (auto &p : P) for (float rad : {0.f, 0.5f, 1.f, 3.f, 5.f, 20.f}) { r.tick(); A32 float a[2 * N], s[N + 1]; memcpy(a, &x, sizeof a); memcpy(s, p.a, 4 * N); s[N] = rad; for (float &y : a) y *= sc; for (float &y : s) y *= sc; double d2 = 0; for (int i = 0; i < N; i++) { double e = s[i] < a[i] ? (double)a[i] - s[i] : s[i] > a[N + i] ? (double)s[i] - a[N + i] : 0; d2 += e * e; } r.show("box", a, 2 * N); r.show("ball", s, N + 1); r.eqi("ball touches the box", F(BALL)(a, s), d2 <= (double)s[N] * s[N]); } }
// ball and box of very different sizes
SITE(spheres_mixed) { if (!HAVE(BALL)) return; auto P = product<N>({0.f, 1.f, -2.f, 3.5f, -8.f}); const float SC[][2] = {{64, 1.f / 64}, {1.f / 64, 64}, {1024, 1}, {1, 1024}, {1.f / 512, 8}, {512, 1.f / 8}, {16, 1}, {1, 16}}; for (auto &sc : SC) for (auto &x : boxes(7)) for (auto &p : P) for (float rad : {0.f, 0.5f, 3.f, 20.f, 90.f}) { r.tick(); A32 float a[2 * N], s[N + 1]; memcpy(a, &x, sizeof a); memcpy(s, p.a, 4 * N); s[N] = rad; for (float &y : a) y *= sc[0]; for (float &y : s) y *= sc[1]; double d2 = 0, m = 0; for (int i = 0; i < N; i++) { double e = s[i] < a[i] ? (double)a[i] - s[i] : s[i] > a[N + i] ? (double)s[i] - a[N + i] : 0; d2 += e * e; m += fabs(s[i]) + fabs(a[i]); } double q = (double)s[N] * s[N]; if (d2 != 0 && fabs(d2 - q) < 1e-5 * (d2 + q + m * m)) continue; r.show("box", a, 2 * N); r.show("ball", s, N + 1); r.eqi("ball touches the box", F(BALL)(a, s), d2 <= q); } }
// balls that almost touch, and almost cubic or empty boxes
SITE(spheres_near) { if (!HAVE(BALL)) return; int q = 0; for (auto &x : boxes(8)) for (int dir = 1; dir < 1 << 2 * N; dir++) for (float rad : {0.5f, 3.f, 40.f}) for (int e = 0; e < 6; e += 1 + (N == 3) * 2) { A32 float a[2 * N], s[N + 1]; memcpy(a, &x, sizeof a); const float sc = SC[q % 9]; float off[N]; double n = 0; for (int k = 0; k < N; k++) { int c = dir >> 2 * k & 3; off[k] = c == 1 ? -1.f : c == 2 ? 1.f : c == 3 ? 0.25f : 0; n += off[k] * off[k] * (c != 3); } if (n == 0) continue; n = sqrt(n); double ds = rad * (1 + NEARD[(e + q++) % 6]); for (int k = 0; k < N; k++) { int c = dir >> 2 * k & 3; s[k] = c == 1 ? (float)(a[k] - ds / n) : c == 2 ? (float)(a[N + k] + ds / n) : a[k] + (c == 3 ? 0.25f : 0.5f) * (a[N + k] - a[k]); } s[N] = rad; for (float &y : a) y *= sc; for (float &y : s) y *= sc;
    double d2 = 0, m = 0; for (int i = 0; i < N; i++) { double v = s[i] < a[i] ? (double)a[i] - s[i] : s[i] > a[N + i] ? (double)s[i] - a[N + i] : 0; d2 += v * v; m += (fabs(s[i]) + fabs(a[i]) + fabs(a[N + i])) * fabs(v); } double w = (double)s[N] * s[N]; if (fabs(d2 - w) < 1e-6 * (d2 + w + m)) continue; r.tick(); r.show("box", a, 2 * N); r.show("ball", s, N + 1); r.eqi("ball touches the box", F(BALL)(a, s), d2 <= w); } }
SITE(transform) { if (!HAVE(PX(transform))) return; auto MM = plusnear(mats(MN, MN, 60), MN); auto BX = fewboxes(); for (float s : {0.04f, 2e-3f, 60.f, 7.f, 900.f, 3e-5f, 2e4f, 4e6f}) for (int i = 0; i < 5; i++) { Box b = BX[i * 3 % BX.size()]; for (float &y : b) y *= s; BX.push_back(b); } BX.push_back(Box{}); for (float s : {0.02f, -3e-3f, 40.f, -700.f, 3e5f}) for (int i = 0; i < 4; i++) { FM m = MM[7 * i + 3]; for (float &y : m.a) y *= s; MM.push_back(m); } MM.push_back(FM{}); for (auto &mm : MM) for (auto &x : BX) { r.tick(); A32 float m[MN * MN], a[2 * N], d[2 * N]; memcpy(m, mm.a, sizeof m); memcpy(a, &x, sizeof a); for (int c = 0; c < MN; c++) m[c * MN + N] = c == N; FILL(d); r.show("box", a, 2 * N); r.show("m", m, MN * MN); F(PX(transform))(a, m, d);
    for (int w = 0; w < N; w++) { double lo = 0, hi = 0, mag = 0; for (int k = 0; k < 1 << N; k++) { double e = m[N * MN + w], g = fabs(e); for (int j = 0; j < N; j++) { double t = (double)m[j * MN + w] * a[(k >> j & 1) * N + j]; e += t; g += fabs(t); } mag = std::max(mag, g); if (!k || e < lo) lo = e; if (!k || e > hi) hi = e; } r.near("transformed min", d[w], R(lo, mag), 8); r.near("transformed max", d[N + w], R(hi, mag), 8); } } }
