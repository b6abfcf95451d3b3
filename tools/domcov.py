#!/usr/bin/env python3
"""Development aid: which regions of the input domain do the property drivers reach?  Instruments the shim with predicates
on the inputs of every operation, runs the drivers C06..C33 once (sse2, inline), prints predicates never true. domcov.py OUT [Cxx ...]"""
import os, sys, json, subprocess, shutil, tempfile, collections, concurrent.futures as cf
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H + '/lib'); sys.path.insert(0, H); sys.dont_write_bytecode = True
import build as B, props as P, check as K
PAIRS = '--pairs' in sys.argv; sys.argv = [a for a in sys.argv if a != '--pairs']  # conjunctions of predicates on different parameters
OUT = sys.argv[1]; ONLY = sys.argv[2:]
DRV = {p: s['driver'] for p, s in P.PROPS.items() if 'driver' in s and (not ONLY or p in ONLY)}
SEL = {p: K.select(K.globs_of(H + '/drivers/' + d)) for p, d in DRV.items()}
PRED = []  # (func, label)
HELP = r'''
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <stdlib.h>
static unsigned char *HIT;
__attribute__((constructor)) static void dc_init(void) { int fd = open(getenv("DOMCOV"), O_RDWR|O_CREAT, 0600); if (ftruncate(fd, 1<<24)) _exit(3); HIT = mmap(0, 1<<24, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0); close(fd); }
static float dc_max(const float *v, int n) { float m = 0; for (int i = 0; i < n; i++) { float a = v[i] < 0 ? -v[i] : v[i]; if (a > m) m = a; } return m; }
static float dc_min(const float *v, int n) { float m = 3e38f; for (int i = 0; i < n; i++) { float a = v[i] < 0 ? -v[i] : v[i]; if (a < m) m = a; } return m; }
static int dc_arg(const float *v, int n) { int k = 0; for (int i = 1; i < n; i++) { float a = v[i] < 0 ? -v[i] : v[i], b = v[k] < 0 ? -v[k] : v[k]; if (a > b) k = i; } return k; }
static int dc_neg(const float *v, int n) { int k = 0; for (int i = 0; i < n; i++) k += v[i] < 0; return k; }
static double dc_dot(const float *a, const float *b, int n) { double s = 0; for (int i = 0; i < n; i++) s += (double)a[i]*b[i]; return s; }
static int dc_eq(const float *a, const float *b, int n) { for (int i = 0; i < n; i++) if (a[i] != b[i]) return 0; return 1; }
static double dc_det(const float *m, int n) { if (n == 2) return (double)m[0]*m[3]-(double)m[1]*m[2];
  double a[4][4]; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i][j] = m[i*n+j]; double d = 1;
  for (int k = 0; k < n; k++) { int p = k; for (int i = k; i < n; i++) if ((a[i][k]<0?-a[i][k]:a[i][k]) > (a[p][k]<0?-a[p][k]:a[p][k])) p = i; if (a[p][k] == 0) return 0; if (p != k) { d = -d; for (int j = 0; j < n; j++) { double t = a[p][j]; a[p][j] = a[k][j]; a[k][j] = t; } } d *= a[k][k]; for (int i = k+1; i < n; i++) { double f = a[i][k]/a[k][k]; for (int j = k; j < n; j++) a[i][j] -= f*a[k][j]; } } return d; }
'''
def preds(f):
    o = []; vecs = []
    for p in f['params']:
        x = '_' + p['name'] if False else B.cdecl(p)
        nm = None
        yield_ = None
    return o
def pname(p):
    import re
    d = B.cdecl(p); return re.findall(r'([A-Za-z_]\w*)\s*(?:\[\w*\])*\s*$', d)[0]
def gen(f):
    o = []; vs = []
    for p in f['params']:
        n = pname(p)
        if p['kind'] == 'val':
            if p['base'] == 'f':
                for lab, c in (('<0', 'X<0'), ('==0', 'X==0'), ('==1', 'X==1'), ('>1', 'X>1'), ('(0,1)', 'X>0&&X<1'), ('<-1', 'X<-1'), ('>6.3', 'X>6.3f'), ('>50', 'X>50'), ('>3000', 'X>3000'), ('tiny1e-2', 'X!=0&&X<1e-2f&&X>-1e-2f'), ('tiny1e-4', 'X!=0&&X<1e-4f&&X>-1e-4f')):
                    o.append((p['name'] + lab, c.replace('X', n)))
            else:
                for lab, c in (('<0', 'X<0'), ('==0', 'X==0'), ('==1', 'X==1'), ('>3', 'X>3'), ('>100', 'X>100'), ('>65536', 'X>65536')): o.append((p['name'] + lab, c.replace('X', n)))
            continue
        if p['dir'] == 'out' or p['base'] != 'f': continue
        k = p['n']; fp = '((const float*)%s)' % n
        def A(lab, c): o.append((p['name'] + '.' + lab, (fp + ' && (' + c + ')').replace('V', fp).replace('N', str(k))))
        A('allneg', 'dc_neg(V,N)==N') ; A('noneg', 'dc_neg(V,N)==0'); A('oneneg', 'dc_neg(V,N)==1')
        A('nozero', 'dc_min(V,N)>0'); A('zero', 'dc_max(V,N)==0')
        for t in ('10', '100', '1e4', '1e6'): A('max>' + t, 'dc_max(V,N)>%sf' % t.replace('10', '10.0').replace('10.00', '100.0') if 'e' not in t else 'dc_max(V,N)>%sf' % t)
        for t in ('0.3', '1e-2', '1e-4'): A('max<' + t, 'dc_max(V,N)>0&&dc_max(V,N)<%sf' % t)
        if k <= 4:
            for i in range(k): A('argmax%d' % i, 'dc_arg(V,N)==%d&&V[%d]!=0' % (i, i))
            for i in range(k): A('neg%d' % i, 'V[%d]<0' % i)
        if p['ctype'].startswith('mat') and k in (4, 9, 16) and p['ctype'] in ('mat2', 'mat3', 'mat4'):
            d = {4: 2, 9: 3, 16: 4}[k]
            A('det<0', 'dc_det(V,%d)<0' % d); A('det==0', 'dc_det(V,%d)==0' % d); A('|det|>20', 'dc_det(V,%d)>20||dc_det(V,%d)<-20' % (d, d)); A('|det|<.05', '(dc_det(V,%d)!=0)&&dc_det(V,%d)<.05&&dc_det(V,%d)>-.05' % (d, d, d)); A('det~1', 'dc_det(V,%d)>.999&&dc_det(V,%d)<1.001' % (d, d))
            if k == 16: A('projective', 'V[3]!=0||V[7]!=0||V[11]!=0'); A('w!=1', 'V[15]!=1'); A('trace<0', 'V[0]+V[5]+V[10]<0'); A('trans', 'V[12]!=0&&V[13]!=0&&V[14]!=0')
            if k == 9: A('trace<0', 'V[0]+V[4]+V[8]<0'); A('w!=1', 'V[8]!=1')
        vs.append((p['name'], fp, k, p['ctype']))
    for i in range(len(vs)):
        for j in range(i + 1, len(vs)):
            a, b = vs[i], vs[j]
            if a[2] != b[2]: continue
            def A(lab, c): o.append(('%s,%s %s' % (a[0], b[0], lab), c.replace('V', a[1]).replace('W', b[1]).replace('N', str(a[2]))))
            A('eq', 'dc_eq(V,W,N)'); A('dot<0', 'dc_dot(V,W,N)<0'); A('|a|>30|b|>0', 'dc_max(V,N)>30*dc_max(W,N)&&dc_max(W,N)>0'); A('|b|>30|a|>0', 'dc_max(W,N)>30*dc_max(V,N)&&dc_max(V,N)>0')
            if a[2] <= 4: A('parallel', 'dc_dot(V,W,N)*dc_dot(V,W,N)>.999999*dc_dot(V,V,N)*dc_dot(W,W,N)&&!dc_eq(V,W,N)&&dc_max(V,N)>0&&dc_max(W,N)>0')
    return o
W = tempfile.mkdtemp(prefix='cglmv_dc_')
def main():
    b = B.Builder(W + '/api'); allids = {}
    for f in B.API:
        for lab, c in gen(f): allids[f['name'], lab] = len(allids)
    hits = collections.Counter()
    def one(p):
        shim = B.shim_source('inline', SEL[p]); 
        for f in B.API:
            if f['name'] not in SEL[p]: continue
            key = ' S_%s(' % f['name']; i = shim.find(key)
            if i < 0: continue
            j = shim.index('{', i) + 1
            if PAIRS:
                g = gen(f); n = len(g); w = (n + 63) // 64; base = allids[f['name'], g[0][0]] if g else 0
                if g: shim = shim[:j] + ' { static unsigned long long seen[%d][%d]; unsigned long long b[%d] = {0}; ' % (n, w, w) + ' '.join('if (%s) b[%d] |= 1ull<<%d;' % (c, i >> 6, i & 63) for i, (_, c) in enumerate(g)) + ' unsigned long long *H = (unsigned long long *)HIT; for (int i = 0; i < %d; i++) if (b[i>>6]>>(i&63)&1) for (int k = 0; k < %d; k++) if (b[k] & ~seen[i][k]) { seen[i][k] |= b[k]; __atomic_fetch_or(&H[(%d+i)*4+k], b[k], 0); } } ' % (n, w, base) + shim[j:]
                continue
            shim = shim[:j] + ' ' + ' '.join('if (!HIT[%d] && (%s)) HIT[%d] = 1;' % (allids[f['name'], lab], c, allids[f['name'], lab]) for lab, c in gen(f)) + shim[j:]
        k = shim.index('static __attribute__((noinline))'); shim = shim[:k] + HELP + shim[k:]
        s = W + '/%s.c' % p; open(s, 'w').write(shim); so = W + '/%s.so' % p
        cc, fl, _ = B.CONFIGS['sse2']
        r = B.run([cc] + fl + ['-I', '/repo/include', '-I', H + '/lib', '-w', '-fPIC', '-fvisibility=hidden', '-shared', '-o', so, s, '-lm'])
        if r.returncode: print(p, r.stderr[:1500]); return p, b''
        out = W + '/drv_' + p
        r = B.run(['g++', '-std=gnu++17', '-O1', '-g0', '-w', '-I', W + '/api', '-I', H + '/lib', '-I', H + '/drivers', H + '/drivers/' + DRV[p], '-o', out, '-ldl', '-lm', '-rdynamic']); assert r.returncode == 0, r.stderr[-500:]
        q = subprocess.run([out, '-j', '1', 'sse2:inline:' + so], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, DOMCOV=W + '/hit_' + p))
        return p, open(W + '/hit_' + p, 'rb').read()
    with cf.ThreadPoolExecutor(6) as ex:
        cov = {}
        if PAIRS:
            import struct
            tot = collections.defaultdict(lambda: [0] * 4)
            for p, h in ex.map(one, DRV):
                for k, i in allids.items():
                    if len(h) >= (i + 1) * 32:
                        r = struct.unpack_from('<4Q', h, i * 32)
                        if any(r): tot[k] = [a | b for a, b in zip(tot[k], r)]
            sel = set().union(*SEL.values())
            with open(OUT, 'w') as o:
                for f in B.API:
                    if f['name'] not in sel: continue
                    g = gen(f); un = []
                    def own(l):
                        import re
                        x = re.split(r'tiny|[<>=]|\(0,1', l)[0]
                        return set(re.sub(r'[. ].*', '', x if x else l).split(','))
                    for i, (la, _) in enumerate(g):
                        if not tot[f['name'], la][i >> 6] >> (i & 63) & 1: continue
                        for j in range(i + 1, len(g)):
                            lb = g[j][0]
                            if not tot[f['name'], lb][j >> 6] >> (j & 63) & 1: continue
                            if own(la) & own(lb): continue
                            if not tot[f['name'], la][j >> 6] >> (j & 63) & 1: un.append(la + ' & ' + lb)
                    if un: o.write('%s [%s] %d: %s\n' % (f['name'], ' '.join(sorted(p for p in SEL if f['name'] in SEL[p])), len(un), '; '.join(un)))
            return
        for p, h in ex.map(one, DRV):
            for k, i in allids.items():
                if i < len(h) and h[i]: cov.setdefault(k, []).append(p)
    sel = set().union(*SEL.values()); un = collections.OrderedDict(); tot = 0
    for (fn, lab) in allids:
        if fn not in sel: continue
        tot += 1
        if (fn, lab) not in cov: un.setdefault(fn, []).append(lab)
    with open(OUT, 'w') as o:
        for fn, l in un.items(): o.write('%s [%s]: %s\n' % (fn, ' '.join(sorted(p for p in SEL if fn in SEL[p])), '  '.join(l)))
    print(tot, 'predicates', sum(map(len, un.values())), 'never true;', len(un), 'functions')
try: main()
finally: shutil.rmtree(W, ignore_errors=True)
