#!/usr/bin/env python3
"""Development aid: which magnitudes of each input component do the property drivers reach? magcov.py OUT [Cxx ...]"""
import os, sys, subprocess, tempfile, shutil, concurrent.futures as cf
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H + '/lib'); sys.path.insert(0, H); sys.dont_write_bytecode = True
import build as B, props as P, check as K, re
OUT = sys.argv[1]; ONLY = sys.argv[2:]
DRV = {p: s['driver'] for p, s in P.PROPS.items() if 'driver' in s and (not ONLY or p in ONLY)}
SEL = {p: K.select(K.globs_of(H + '/drivers/' + d)) for p, d in DRV.items()}
HELP = r'''
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <stdlib.h>
static unsigned char *HIT;
__attribute__((constructor)) static void dc_init(void) { int fd = open(getenv("DOMCOV"), O_RDWR|O_CREAT, 0600); if (ftruncate(fd, 1<<22)) _exit(3); HIT = mmap(0, 1<<22, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0); close(fd); }
static void dc_b(unsigned char *h, float x) { static const float L[] = {1e-12f, 1e-6f, 1e-3f, 0.1f, 1.5f, 10, 100, 1e3f, 1.6e4f, 1e6f, 3e38f}; if (!(x <= 3e38f && x >= -3e38f)) return; if (x == 0) { h[0] = 1; return; } float a = x < 0 ? -x : x; int k = 0; while (a >= L[k]) k++; h[1 + k + (x < 0 ? 11 : 0)] = 1; }
static void dc_v(unsigned char *h, const float *v, int n) { for (int i = 0; i < n; i++) dc_b(h + 24 * i, v[i]); }
'''
LAB = ['0'] + [s + x for s in ('+', '-') for x in ('<1e-12', '<1e-6', '<1e-3', '<.1', '~1', '<10', '<100', '<1e3', '<1.6e4', '<1e6', 'huge')]
def pname(p): return re.findall(r'([A-Za-z_]\w*)\s*(?:\[\w*\])*\s*$', B.cdecl(p))[0]
base = {}; off = 0
for f in B.API:
    for p in f['params']:
        if p['base'] != 'f' or p['dir'] == 'out': continue
        n = 1 if p['kind'] == 'val' else p['n']; base[f['name'], p['name']] = (off, n); off += 24 * n
W = tempfile.mkdtemp(prefix='cglmv_mc_')
def one(p):
    shim = B.shim_source('inline', SEL[p])
    for f in B.API:
        if f['name'] not in SEL[p]: continue
        i = shim.find(' S_%s(' % f['name'])
        if i < 0: continue
        j = shim.index('{', i) + 1; c = ''
        for q in f['params']:
            if (f['name'], q['name']) not in base: continue
            o, n = base[f['name'], q['name']]
            c += ('dc_b(HIT+%d,%s);' % (o, pname(q))) if q['kind'] == 'val' else ('if (%s) dc_v(HIT+%d,(const float*)%s,%d);' % (pname(q), o, pname(q), n))
        shim = shim[:j] + c + shim[j:]
    k = shim.index('static __attribute__((noinline))'); shim = shim[:k] + HELP + shim[k:]
    s = W + '/%s.c' % p; open(s, 'w').write(shim); so = W + '/%s.so' % p
    cc, fl, _ = B.CONFIGS['sse2']
    r = B.run([cc] + fl + ['-I', '/repo/include', '-I', H + '/lib', '-w', '-fPIC', '-fvisibility=hidden', '-shared', '-o', so, s, '-lm'])
    if r.returncode: print(p, r.stderr[:1500]); return p, b''
    out = W + '/drv_' + p
    r = B.run(['g++', '-std=gnu++17', '-O1', '-g0', '-w', '-I', W + '/api', '-I', H + '/lib', '-I', H + '/drivers', H + '/drivers/' + DRV[p], '-o', out, '-ldl', '-lm', '-rdynamic']); assert r.returncode == 0, r.stderr[-500:]
    subprocess.run([out, '-j', '1', 'sse2:inline:' + so], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, DOMCOV=W + '/hit_' + p))
    return p, open(W + '/hit_' + p, 'rb').read()
try:
    B.Builder(W + '/api')
    tot = bytearray(off)
    with cf.ThreadPoolExecutor(7) as ex:
        for p, h in ex.map(one, DRV):
            for i in range(min(off, len(h))): tot[i] |= h[i]
    sel = set().union(*SEL.values())
    with open(OUT, 'w') as o:
        for f in B.API:
            if f['name'] not in sel: continue
            for p in f['params']:
                if (f['name'], p['name']) not in base: continue
                a, n = base[f['name'], p['name']]; miss = [[b for b in range(23) if not tot[a + 24 * i + b]] for i in range(n)]
                allm = [b for b in range(23) if all(b in m for m in miss)]
                some = sorted(set(b for m in miss for b in m) - set(allm))
                if allm or some: o.write('%s [%s] %s: never %s; partly %s\n' % (f['name'], ' '.join(sorted(q for q in SEL if f['name'] in SEL[q])), p['name'], ' '.join(LAB[b] for b in allm), ' '.join('%s@%s' % (LAB[b], ','.join(str(i) for i in range(n) if b in miss[i])) for b in some)))
finally: shutil.rmtree(W, ignore_errors=True)
