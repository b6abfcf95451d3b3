#!/usr/bin/env python3
"""Development-time mutation survey (no check uses it).  mutate.py OUT [--file GLOB] [--mod N --rem K]
Stage 1 runs the drivers of the mutated header on the builds that compile it, one core per mutant.
Survivors are written to OUT as 'file:line operator | original | mutated'; examine them by hand or with full checks."""
import sys, os, re, json, subprocess, shutil, hashlib, tempfile, fnmatch, glob, concurrent.futures as cf
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H + '/lib'); sys.path.insert(0, H); sys.dont_write_bytecode = True
import build as B, props as P, check as K
R = '/repo'
a = sys.argv[1:]; OUT = a[0]; G = a[a.index('--file') + 1] if '--file' in a else '*'; MOD = int(a[a.index('--mod') + 1]) if '--mod' in a else 1; REM = int(a[a.index('--rem') + 1]) if '--rem' in a else 0
DRV = {p: s['driver'] for p, s in P.PROPS.items() if 'driver' in s}
SEL = {p: K.select(K.globs_of(H + '/drivers/' + d)) for p, d in DRV.items()}
HDR = {}
for f in B.API:
    for p in SEL:
        if f['name'] in SEL[p]: HDR.setdefault(f['header'], set()).add(p)
def drivers(rel):
    b = os.path.basename(rel)
    s = set(HDR.get(rel, ()))
    for h, ps in HDR.items():
        if os.path.basename(h) == b or b.replace('.c', '.h') == os.path.basename(h) or (b.startswith('mat4') and h in ('mat4.h',)): s |= ps
    if 'clipspace' in rel or b in ('cam.h', 'project.h'): s |= {'C20', 'C21', 'C22', 'C23'}
    if 'simd/' in rel and 'affine' in b: s |= {'C18', 'C17'}
    if 'simd/' in rel and 'quat' in b: s |= {'C13', 'C14'}
    if b in ('x86.h', 'arm.h', 'wasm.h', 'intrin.h'): s = {'C06', 'C07', 'C08', 'C10'}
    if b == 'common.h' or b == 'types.h': s = {'C08', 'C06'}
    if 'vec2-ext' in b: s |= {'C06', 'C08'}
    return sorted(s)
def builds(rel):
    if rel.startswith('src/'): return [('sse2', 'call')]
    if 'struct/' in rel: return [('sse2', 'struct')]
    if 'simd/avx' in rel: return [('avx2fma', 'inline'), ('avx', 'inline')]
    if 'simd/neon' in rel or rel.endswith('arm.h'): return [('neon64', 'inline'), ('neon32', 'inline')]
    if 'wasm' in rel: return [('wasm', 'inline')]
    if 'x86.h' in rel: return [('sse2', 'inline'), ('sse41', 'inline'), ('sse3', 'inline'), ('avx2fma', 'inline')]
    if 'simd/sse2' in rel: return [('sse2', 'inline'), ('avx2fma', 'inline')]
    return [('sse2', 'inline'), ('scalar', 'inline'), ('lh_zo', 'inline'), ('avx2fma', 'inline')]
def mutations(line):
    out = []
    for m in re.finditer(r'\[([0-3])\]', line):
        k = int(m.group(1))
        for q in ((k + 1) % 4, k - 1):
            if q >= 0 and q != k: out.append(('idx', line[:m.start()] + '[%d]' % q + line[m.end():]))
    for m in re.finditer(r' ([+\-*/]) ', line):
        for q in {'+': '-', '-': '+', '*': '+', '/': '*'}[m.group(1)]: out.append(('arith', line[:m.start()] + ' %s ' % q + line[m.end():]))
    for m in re.finditer(r' ([+\-])= ', line): out.append(('arith', line[:m.start()] + ' %s= ' % ('-' if m.group(1) == '+' else '+') + line[m.end():]))
    for m in re.finditer(r' (<=|>=|<|>) ', line):
        for q in {'<': ['<=', '>'], '<=': ['<'], '>': ['>=', '<'], '>=': ['>']}[m.group(1)]: out.append(('cmp', line[:m.start()] + ' %s ' % q + line[m.end():]))
    for m in re.finditer(r'\b(\d+\.\d+)f\b', line):
        v = float(m.group(1)); out.append(('const', line[:m.start()] + '%sf' % (v + 1.0 if v in (0.0, 1.0) else v * 1.25) + line[m.end():]))
        if v == 1.0: out.append(('const', line[:m.start()] + '0.0f' + line[m.end():]))
    for m in re.finditer(r'(&&|\|\|)', line): out.append(('logic', line[:m.start()] + ('||' if m.group(1) == '&&' else '&&') + line[m.end():]))
    if re.match(r'^\s+[^=]*=[^=].*;\s*$', line) and not re.match(r'^\s+(const |static |CGLM_ALIGN\w*(\(\d+\))? )?(float|int|vec\d|mat\d\w*|versor|ivec\d|__m\w+|glmm_\w+|float32x\w+|v128_t|bool|\w+s)\s+\w', line): out.append(('del', '\n'))
    elif re.match(r'^\s+\w+\(.*\);\s*$', line) and 'return' not in line: out.append(('del', '\n'))
    for m in re.finditer(r'(= | |\()-(?=[\w(])', line): out.append(('neg', line[:m.start()] + m.group(1) + line[m.end():]))
    for x, y in (('_lh', '_rh'), ('_rh', '_lh'), ('_no', '_zo'), ('_zo', '_no'), ('sinf', 'cosf'), ('cosf', 'sinf'), ('nearZ', 'farZ'), ('left', 'right'), ('top', 'bottom'), ('right', 'left'), ('bottom', 'top'), ('farZ', 'nearZ'), ('min', 'max'), ('max', 'min'), ('add', 'sub'), ('sub', 'add'), ('fmadd', 'fnmadd'), ('v1', 'v0'), ('a[', 'b['), ('m1', 'm2'), ('sin', 'cos'), ('vec3', 'vec4'), ('vec4', 'vec3')):
        if x in line and not line.lstrip().startswith('glm') or x in line and '(' in line and ';' in line: out.append(('name', line.replace(x, y, 1)))
    for m in re.finditer(r'\(([\w\[\].]+), ([\w\[\].]+)([,)])', line):
        if ';' in line and m.group(1) != m.group(2): out.append(('swap', line[:m.start()] + '(%s, %s%s' % (m.group(2), m.group(1), m.group(3)) + line[m.end():]))
    for m in re.finditer(r'\(([0-3]), ([0-3]), ([0-3]), ([0-3])\)', line):
        d = list(m.groups()); e = [d[1], d[0]] + d[2:]; e2 = d[:3] + [str((int(d[3]) + 1) % 4)]
        for q in (e, e2):
            if q != d: out.append(('shuf', line[:m.start()] + '(%s)' % ', '.join(q) + line[m.end():]))
    return out
def mutants():
    files = [f for f in glob.glob(R + '/include/cglm/**/*.h', recursive=True) + glob.glob(R + '/src/**/*.c', recursive=True)]
    for f in sorted(files):
        rel = f[len(R) + 1:]; short = rel.replace('include/cglm/', '')
        if not fnmatch.fnmatch(short, G): continue
        L = open(f, encoding='utf8').read().split('\n'); com = False; infn = False
        for i, l in enumerate(L):
            s = l.strip()
            if com or s.startswith('/*'):
                com = '*/' not in s[0 if com else 2:]; continue
            if s.startswith('#') or s.startswith('//') or not s: continue
            if l.startswith('}'): infn = False; continue
            if l.endswith('{') and not l.startswith(' '): infn = True; continue
            if not infn and not l.startswith('                '): 
                if '{' in l: infn = True
                continue
            if not infn: continue
            for op, nl in mutations(l):
                if nl.strip() == s: continue
                h = int(hashlib.md5(('%s:%d:%s:%s' % (short, i, op, nl)).encode()).hexdigest(), 16)
                if h % MOD == REM: yield short, rel, i, op, l, nl
W = tempfile.mkdtemp(prefix='cglmv_mut_')
def main():
    ms = list(mutants()); print(len(ms), 'mutants', flush=True)
    b0 = B.Builder(W + '/api'); drv = {}
    need = sorted({p for m in ms for p in drivers(m[0])})
    def comp(p):
        out = W + '/drv_' + p
        r = B.run(['g++', '-std=gnu++17', '-O1', '-g0', '-w', '-I', W + '/api', '-I', H + '/lib', '-I', H + '/drivers', H + '/drivers/' + DRV[p], '-o', out, '-ldl', '-lm', '-rdynamic']); assert r.returncode == 0, r.stderr[-500:]; return out
    with cf.ThreadPoolExecutor(8) as ex: drv = dict(zip(need, ex.map(comp, need)))
    # generic
    gout = W + '/generic'; r = B.run(['g++', '-O2', '-std=gnu++17', '-w', '-I', W + '/api', '-I', H + '/lib', H + '/drivers/generic.cpp', '-o', gout, '-ldl', '-rdynamic']); assert r.returncode == 0
    shim = {}
    for p in need:
        d = W + '/shim_' + p; os.makedirs(d); 
        for s in ('inline', 'call', 'struct'):
            shim[p, s] = d + '/%s.c' % s; open(shim[p, s], 'w').write(B.shim_source(s, SEL[p]))
    def one(m):
        short, rel, i, op, l, nl = m
        w = tempfile.mkdtemp(dir=W); os.makedirs(w + '/r'); shutil.copytree(R + '/include', w + '/r/include'); shutil.copytree(R + '/src', w + '/r/src')
        f = w + '/r/' + rel; L = open(f, encoding='utf8').read().split('\n'); L[i] = nl.rstrip('\n'); open(f, 'w', encoding='utf8').write('\n'.join(L))
        try:
            anyb = False
            for cfg, surf in builds(short):
                for p in drivers(short):
                    cc, fl, _ = B.CONFIGS[cfg]; so = w + '/%s_%s_%s.so' % (p, cfg, surf); inc = ['-I', w + '/r/include', '-I', H + '/lib', '-w', '-fPIC', '-fvisibility=hidden']
                    fl = [x if x not in ('-O2', '-O3') else '-O1' for x in fl]; srcs = [shim[p, surf]]
                    if surf == 'call':
                        srcs.append(w + '/unity.c'); open(w + '/unity.c', 'w').write(B.PRE + ''.join('#include "%s"\n' % s for s in sorted(glob.glob(w + '/r/src/**/*.c', recursive=True))))
                    r = B.run([cc] + fl + inc + ['-shared', '-o', so] + srcs + ['-lm'])
                    if r.returncode: return 'nocompile'
                    anyb = True
                    try: q = subprocess.run([drv[p], '-j', '1', '%s:%s:%s' % (cfg, surf, so)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=240)
                    except subprocess.TimeoutExpired: return 'killed'
                    if q.returncode or any(json.loads(x)['nfail'] for x in q.stdout.splitlines() if x.startswith('{')): return 'killed'
                    os.unlink(so)
            return 'survived' if anyb else 'nodriver'
        except Exception as e: return 'error %r' % e
        finally: shutil.rmtree(w, ignore_errors=True)
    cnt = {}
    with open(OUT, 'w') as o, cf.ThreadPoolExecutor(8) as ex:
        for n, (m, r) in enumerate(zip(ms, ex.map(one, ms))):
            cnt[r] = cnt.get(r, 0) + 1
            if r not in ('killed', 'nocompile'): o.write('%s %s:%d %s | %s | %s\n' % (r, m[0], m[2] + 1, m[3], m[4].strip(), m[5].strip())); o.flush()
            if n % 100 == 99: print(n + 1, cnt, flush=True)
    print(cnt)
try: main()
finally: shutil.rmtree(W, ignore_errors=True)
