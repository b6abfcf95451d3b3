#!/usr/bin/env python3
"""Development aid: how close to special relations (unit norm, equal, parallel, perpendicular, singular, t=0/1, pi ...) do the inputs the
drivers reach come, by decade and side? relcov.py OUT [Cxx ...]"""
import os, sys, subprocess, tempfile, shutil, concurrent.futures as cf
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H + '/lib'); sys.path.insert(0, H); sys.dont_write_bytecode = True
import build as B, props as P, check as K, re
OUT = sys.argv[1]; ONLY = sys.argv[2:]
DRV = {p: s['driver'] for p, s in P.PROPS.items() if 'driver' in s and (not ONLY or p in ONLY)}
SEL = {p: K.select(K.globs_of(H + '/drivers/' + d)) for p, d in DRV.items()}
HELP = r'''
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <stdlib.h>
static unsigned char *HIT;
__attribute__((constructor)) static void dc_init(void) { int fd = open(getenv("DOMCOV"), O_RDWR|O_CREAT, 0600); if (ftruncate(fd, 1<<24)) _exit(3); HIT = mmap(0, 1<<24, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0); close(fd); }
#include <math.h>
static void dc_q(unsigned char *h, double q) { static const double L[] = {2e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 1e-1}; if (!(q <= 3e38 && q >= -3e38)) return; if (q == 0) { h[0] = 1; return; } double a = q < 0 ? -q : q; int k = 0; while (k < 7 && a >= L[k]) k++; h[1 + k + (q < 0 ? 8 : 0)] = 1; }
static double dc_dot(const float *a, const float *b, int n) { double s = 0; for (int i = 0; i < n; i++) s += (double)a[i]*b[i]; return s; }
static double dc_n(const float *a, int n) { return sqrt(dc_dot(a, a, n)); }
static double dc_par(const float *a, const float *b, int n) { double na = dc_n(a, n), nb = dc_n(b, n); if (na == 0 || nb == 0) return 9; double s = 0; double d = dc_dot(a, b, n); for (int i = 0; i < n; i++) { double e = a[i]/na - (d < 0 ? -1 : 1)*b[i]/nb; s += e*e; } return d < 0 ? -sqrt(s) : sqrt(s); }
static double dc_cos(const float *a, const float *b, int n) { double na = dc_n(a, n), nb = dc_n(b, n); if (na == 0 || nb == 0) return 9; return dc_dot(a, b, n)/na/nb; }
static double dc_dif(const float *a, const float *b, int n) { double s = 0; for (int i = 0; i < n; i++) s += ((double)a[i]-b[i])*((double)a[i]-b[i]); double m = dc_n(a, n); return m == 0 ? sqrt(s) : sqrt(s)/m; }
static double dc_det(const float *m, int n) { double a[4][4], p0 = 1; for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < n; j++) { a[i][j] = m[i*n+j]; s += a[i][j]*a[i][j]; } p0 *= sqrt(s); } double d = 1; if (p0 == 0) return 0;
  for (int k = 0; k < n; k++) { int p = k; for (int i = k; i < n; i++) if (fabs(a[i][k]) > fabs(a[p][k])) p = i; if (a[p][k] == 0) return 0; if (p != k) { d = -d; for (int j = 0; j < n; j++) { double t = a[p][j]; a[p][j] = a[k][j]; a[k][j] = t; } } d *= a[k][k]; for (int i = k+1; i < n; i++) { double f = a[i][k]/a[k][k]; for (int j = k; j < n; j++) a[i][j] -= f*a[k][j]; } } return d / p0; }
static double dc_orth(const float *m, int n, int k) { double w = 0; for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) { double e = fabs(dc_dot(m+n*i, m+n*j, k) - (i == j)); if (e > w) w = e; } return w; }
static double dc_tr(const float *m, int n, int k) { double s = 0; for (int i = 0; i < k; i++) s += m[i*n+i]; return s; }
static double dc_aff(const float *m) { double s = fabs(m[3]); if (fabs(m[7]) > s) s = fabs(m[7]); if (fabs(m[11]) > s) s = fabs(m[11]); if (fabs(m[15]-1) > s) s = fabs(m[15]-1.); return s; }
static double dc_rel(double a, double b) { double m = fabs(a) > fabs(b) ? fabs(a) : fabs(b); return m == 0 ? 0 : (a - b) / m; }
'''
LAB = ['0'] + [s + x for s in ('+', '-') for x in ('ulp', '1e-6', '1e-5', '1e-4', '1e-3', '1e-2', '1e-1', 'big')]
def pname(p): return re.findall(r'([A-Za-z_]\w*)\s*(?:\[\w*\])*\s*$', B.cdecl(p))[0]
def quants(f):
    sc = []; vs = []
    for p in f['params']:
        if p['base'] != 'f' or p['dir'] == 'out': continue
        n = pname(p)
        if p['kind'] == 'val':
            sc.append((p['name'], n))
            for l, r in (('1', 1), ('0', 0), ('.5', .5), ('-1', -1), ('pi/2', 1.5707963), ('-pi/2', -1.5707963), ('pi', 3.1415927), ('-pi', -3.1415927), ('2pi', 6.2831853)): yield p['name'] + '-' + l, '%s-(float)%r' % (n, r)
            continue
        k = p['n']; v = '((const float*)%s)' % n; vs.append((p['name'], v, k, n))
        G = 'if (%s) ' % n
        if k <= 4:
            yield p['name'] + ' norm-1', (G, 'dc_n(%s,%d)-1' % (v, k))
            yield p['name'] + ' norm', (G, 'dc_n(%s,%d)' % (v, k))
            for i in range(k):
                yield '%s[%d]-1' % (p['name'], i), (G, '%s[%d]-1.' % (v, i)); yield '%s[%d]+1' % (p['name'], i), (G, '%s[%d]+1.' % (v, i))
                for j in range(i): yield '%s[%d]~[%d]' % (p['name'], j, i), (G, 'dc_rel(%s[%d],%s[%d])' % (v, j, v, i)); yield '%s[%d]~-[%d]' % (p['name'], j, i), (G, 'dc_rel(%s[%d],-%s[%d])' % (v, j, v, i))
        if p['ctype'] in ('mat2', 'mat3', 'mat4'):
            d = int(p['ctype'][3]); yield p['name'] + ' det', (G, 'dc_det(%s,%d)' % (v, d)); yield p['name'] + ' orth', (G, 'dc_orth(%s,%d,%d)' % (v, d, d)); yield p['name'] + ' trace', (G, 'dc_tr(%s,%d,%d)' % (v, d, d)); yield p['name'] + ' trace-%d' % d, (G, 'dc_tr(%s,%d,%d)-%d' % (v, d, d, d))
            if d == 4: yield p['name'] + ' orth3', (G, 'dc_orth(%s,4,3)' % v); yield p['name'] + ' tr3-3', (G, 'dc_tr(%s,4,3)-3' % v); yield p['name'] + ' tr3+1', (G, 'dc_tr(%s,4,3)+1' % v); yield p['name'] + ' tr3', (G, 'dc_tr(%s,4,3)' % v); yield p['name'] + ' affine', (G, 'dc_aff(%s)' % v)
            if d == 3: yield p['name'] + ' tr+1', (G, 'dc_tr(%s,3,3)+1' % v)
            if d >= 3:
                for i in range(3):
                    for j in range(i): yield '%s |c%d|~|c%d|' % (p['name'], j, i), (G, 'dc_rel(dc_n(%s+%d,3),dc_n(%s+%d,3))' % (v, d*j, v, d*i))
    for i in range(len(sc)):
        for j in range(i): yield '%s~%s' % (sc[j][0], sc[i][0]), 'dc_rel(%s,%s)' % (sc[j][1], sc[i][1]); yield '%s~-%s' % (sc[j][0], sc[i][0]), 'dc_rel(%s,-%s)' % (sc[j][1], sc[i][1])
    for i in range(len(vs)):
        for j in range(i):
            a, b = vs[j], vs[i]
            if a[2] != b[2]: continue
            G = 'if (%s && %s) ' % (a[3], b[3]); x = '%s,%s,%d' % (a[1], b[1], a[2]); l = '%s,%s ' % (a[0], b[0])
            yield l + 'diff', (G, 'dc_dif(%s)' % x)
            if a[2] <= 4: yield l + 'par', (G, 'dc_par(%s)' % x); yield l + 'cos', (G, 'dc_cos(%s)' % x); yield l + 'norms', (G, 'dc_rel(dc_n(%s,%d),dc_n(%s,%d))' % (a[1], a[2], b[1], b[2]))
base = {}; off = 0
for f in B.API:
    for l, c in quants(f): base[f['name'], l] = off; off += 17
W = tempfile.mkdtemp(prefix='cglmv_mc_')
def one(p):
    shim = B.shim_source('inline', SEL[p])
    for f in B.API:
        if f['name'] not in SEL[p]: continue
        i = shim.find(' S_%s(' % f['name'])
        if i < 0: continue
        j = shim.index('{', i) + 1; c = ''
        for l, q in quants(f):
            g, e = ('', q) if isinstance(q, str) else q
            c += '%sdc_q(HIT+%d,%s);' % (g, base[f['name'], l], e)
        shim = shim[:j] + c + shim[j:]
    k = shim.index('static __attribute__((noinline))'); shim = shim[:k] + HELP + shim[k:]
    s = W + '/%s.c' % p; open(s, 'w').write(shim); so = W + '/%s.so' % p
    cc, fl, _ = B.CONFIGS['sse2']
    r = B.run([cc] + fl + ['-I', '/repo/include', '-I', H + '/lib', '-w', '-fPIC', '-fvisibility=hidden', '-shared', '-o', so, s, '-lm'])
    if r.returncode: print(p, r.stderr[:1500]); return p, b''
    out = W + '/drv_' + p
    r = B.run(['g++', '-std=gnu++17', '-O1', '-g0', '-w', '-I', W + '/api', '-I', H + '/lib', '-I', H + '/drivers', H + '/drivers/' + DRV[p], '-o', out, '-ldl', '-lm', '-rdynamic']); assert r.returncode == 0, r.stderr[-500:]
    subprocess.run([out, '-j', '1', 'sse2:inline:' + so], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, DOMCOV=W + '/hit_' + p))
    return p, open(W + '/hit_' + p, 'rb').read()
try:
    B.Builder(W + '/api')
    tot = bytearray(off)
    with cf.ThreadPoolExecutor(7) as ex:
        for p, h in ex.map(one, DRV):
            for i in range(min(off, len(h))): tot[i] |= h[i]
    sel = set().union(*SEL.values())
    with open(OUT, 'w') as o:
        for f in B.API:
            if f['name'] not in sel: continue
            r = []
            for l, c in quants(f):
                x = base[f['name'], l]; hit = [k for k in range(17) if tot[x + k]]
                if not hit: r.append(l + ': nothing'); continue
                m = [LAB[k] for k in range(17) if not tot[x + k] and k not in (8, 16)]
                if m: r.append('%s: %s' % (l, ' '.join(m)))
            if r: o.write('%s [%s]\n  %s\n' % (f['name'], ' '.join(sorted(q for q in SEL if f['name'] in SEL[q])), '\n  '.join(r)))
finally: shutil.rmtree(W, ignore_errors=True)
