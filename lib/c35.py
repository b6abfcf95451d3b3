import os, re, json, glob, subprocess, itertools, concurrent.futures as cf
import mini as M, build as B
SRC = os.path.join(M.HERE, 'drivers', 'c35.c')
INC = ['-I', B.REPO + '/include', '-I', os.path.join(M.HERE, 'lib')]
KN = ['-DCGLM_ALL_UNALIGNED', '-DCGLM_NO_INT_DOMAIN', '-DCGLM_FORCE_LEFT_HANDED', '-DCGLM_FORCE_DEPTH_ZERO_TO_ONE', '-DCGLM_CLIPSPACE_INCLUDE_ALL', '-DCGLM_OMIT_NS_FROM_STRUCT_API', '-DCGLM_STRUCT_API_NS=foo', '-DCGLM_STRUCT_API_NAME_SUFFIX=s',
      '-DCGLM_DEFINE_PRINTS', '-DCGLM_NO_PRINTS_NOOP', '-DCGLM_NO_ANONYMOUS_STRUCT', '-DCGLM_USE_ANONYMOUS_STRUCT=0', '-DCGLM_USE_ANONYMOUS_STRUCT=1', '-DNDEBUG', '-DDEBUG', '-DCGLM_FAST_MATH', '-DCGLM_USE_DEFAULT_EPSILON', '-DGLM_FLT_EPSILON=0.25f', '-DCGLM_PRINT_PRECISION=3', '-DCGLM_PRINT_COLOR=""', '-DCGLM_STATIC']
ARCH = [('', 'sse2'), ('-msse3 -DCGLM_SSE3_DOT', 'sse3'), ('-msse4.1 -DCGLM_SSE4_DOT', 'sse41'), ('-mavx', 'avx'), ('-mavx2 -mfma', 'avx2fma')]
LANG = [('gcc', '-xc', 'c99'), ('gcc', '-xc', 'c11'), ('gcc', '-xc', 'gnu17'), ('g++', '-xc++', 'c++11'), ('g++', '-xc++', 'c++20'), ('clang', '-xc', 'c99'), ('clang', '-xc', 'c11'), ('clang++', '-xc++', 'c++11'), ('clang++', '-xc++', 'c++20')]
ENT = ['cglm/cglm.h', 'cglm/struct.h', 'cglm/call.h']
PROPERR = {}
def need(k):
    out = [k]
    if 'NO_ANONYMOUS' in k or 'ANONYMOUS_STRUCT=0' in k: out.append('-DWANT_NO_ANON')
    if 'ANONYMOUS_STRUCT=1' in k: out.append('-DWANT_ANON')
    if 'STRUCT_API' in k: out.append('-DOTHER_NAMES')
    if 'GLM_FLT_EPSILON' in k: out.append('-DMY_EPS')
    return out
def variants(tier):
    out = []; V = M.Variant
    def add(name, lang, fl, arch=''):
        cc, x, std = lang; a, feat = next(t for t in ARCH if t[0] == arch)
        anon = ['-DWANT_ANON'] if not any('ANONYMOUS' in f for f in fl) and x == '-xc' and std != 'c99' or std.startswith('gnu++') else []
        out.append(V(name, [cc, x, '-std=' + (std if x == '-xc++' else std.replace('c', 'gnu') if not std.startswith('gnu') else std), '-w', '-O1'] + a.split() + fl + anon + INC + [SRC], runnable=B.runnable(feat)))
    C, CPP, CL = LANG[2], LANG[4], LANG[6]
    for k in [None] + KN:
        fl = need(k) if k else []
        n = (k or 'default').replace('-D', '')
        for lg, t in ((C, 'c'), (CPP, 'c++')) if k else ((l, l[0] + l[2]) for l in LANG if l[2] != 'c99'): add(n + '/' + t, lg, fl)
    add('default/gnu++17', ('g++', '-xc++', 'gnu++17'), []); add('default/clang-gnu++17', ('clang++', '-xc++', 'gnu++17'), [])
    pairs = list(itertools.combinations(['-DCGLM_ALL_UNALIGNED', '-DCGLM_FORCE_LEFT_HANDED', '-DCGLM_FORCE_DEPTH_ZERO_TO_ONE', '-DCGLM_CLIPSPACE_INCLUDE_ALL', '-DCGLM_NO_INT_DOMAIN'] if tier == 'quick' else KN, 2))
    for a, b in pairs:
        if ('STRUCT_API' in a and 'STRUCT_API' in b) or ('ANONYMOUS' in a and 'ANONYMOUS' in b) or ('EPSILON' in a and 'EPSILON' in b): continue
        add((a + '+' + b).replace('-D', ''), C, need(a) + need(b))
    add('lh+zo+all', C, ['-DCGLM_FORCE_LEFT_HANDED', '-DCGLM_FORCE_DEPTH_ZERO_TO_ONE', '-DCGLM_CLIPSPACE_INCLUDE_ALL']); add('lh+zo+all/c++', CPP, ['-DCGLM_FORCE_LEFT_HANDED', '-DCGLM_FORCE_DEPTH_ZERO_TO_ONE', '-DCGLM_CLIPSPACE_INCLUDE_ALL'])
    for a, _ in ARCH[1:]:
        for l, t in ((C, 'c'), (CPP, 'c++'), (CL, 'clang')): add('%s/%s' % (a, t), l, [], a); add('%s+unaligned/%s' % (a, t), l, ['-DCGLM_ALL_UNALIGNED'], a)
    ap = os.path.join(M.HERE, 'drivers', 'apple.c')
    for cc in ('gcc -xc -std=gnu11', 'gcc -xc -std=gnu99', 'g++ -xc++ -std=c++17', 'clang -xc -std=gnu11 -DSTRUCT_FIRST', 'gcc -xc -std=gnu11 -DCGLM_OMIT_NS_FROM_STRUCT_API', 'gcc -xc -std=gnu11 -DCGLM_ALL_UNALIGNED'): out.append(V('applesimd ' + cc, cc.split() + ['-w', '-O1'] + INC + [ap]))
    for o in ('SC', 'CS'): add('order' + o, C, ['-DORDER_' + o]); add('order%s/c++' % o, CPP, ['-DORDER_' + o])
    return out
def linked(work):
    srcs = sorted(glob.glob(B.REPO + '/src/**/*.c', recursive=True))
    u = os.path.join(work, 'unity35.c'); open(u, 'w').write(''.join('#include "%s"\n' % s for s in srcs))
    out = []
    for k in ([], ['-DCGLM_ALL_UNALIGNED'], ['-DCGLM_FORCE_LEFT_HANDED', '-DCGLM_FORCE_DEPTH_ZERO_TO_ONE'], ['-mavx', '-mfma'], ['-DCGLM_CLIPSPACE_INCLUDE_ALL']):
        out.append(M.Variant('linked ' + ' '.join(k), ['gcc', '-std=gnu11', '-w', '-O1', '-DLINKED'] + k + INC + [SRC, u], runnable=B.runnable('avx2fma') if '-mavx' in k else True))
    return out
NSUB = ['mat4x2', 'mat4x3', 'mat3x2', 'mat3x4', 'mat2x3', 'mat2x4', 'mat4', 'mat3', 'mat2', 'vec4', 'vec3', 'vec2', 'ivec4', 'ivec3', 'ivec2', 'quat', 'aabb2d', 'aabb', 'ray']
def structnames():
    """(namespace or None, rest) for every struct function of the API snapshot"""
    out = []
    for f in B.API:
        if 'struct' not in f: continue
        n = f['struct']
        ns = next((s for s in NSUB if n.startswith('glms_%s_' % s)), None)
        out.append((ns, n[len('glms_%s_' % ns):] if ns else n))
    return out
PLAIN = set(json.load(open(os.path.join(M.HERE, 'lib', 'c35_plain.json'))))   # namespaced-looking functions that keep their plain name
def namecfg():
    return [('default', [], lambda ns, r: 'glms_%s_%s' % (ns, r)), ('omit', ['-DCGLM_OMIT_NS_FROM_STRUCT_API'], lambda ns, r: '%s_%s' % (ns, r)), ('ns', ['-DCGLM_STRUCT_API_NS=foo'], lambda ns, r: 'foo_%s_%s' % (ns, r)),
            ('suffix', ['-DCGLM_STRUCT_API_NAME_SUFFIX=s'], lambda ns, r: 'glms_%ss_%s' % (ns, r)), ('ns+suffix', ['-DCGLM_STRUCT_API_NS=ab', '-DCGLM_STRUCT_API_NAME_SUFFIX=zz'], lambda ns, r: 'ab_%szz_%s' % (ns, r)), ('omit+suffix', ['-DCGLM_OMIT_NS_FROM_STRUCT_API', '-DCGLM_STRUCT_API_NAME_SUFFIX=q'], lambda ns, r: '%sq_%s' % (ns, r))]
def names_src(fn): # the table of every struct function under the names of this configuration
    o = ['#include <stdio.h>\n#define CGLM_CLIPSPACE_INCLUDE_ALL\n#include <cglm/cglm.h>\n#include <cglm/struct.h>\n#include <cglm/struct/aabb2d.h>\n#include <cglm/struct/handed/euler_to_quat_lh.h>\n#include <cglm/struct/handed/euler_to_quat_rh.h>\ntypedef void (*F)(void);\nstatic F T[] = {']
    n = 0
    for ns, r in structnames():
        full = 'glms_%s_%s' % (ns, r) if ns else r
        o.append('(F)%s,' % (full if ns is None or full in PLAIN else fn(ns, r))); n += 1
    o.append('};\nint main(void) { int n = 0; for (unsigned i = 0; i < sizeof T / sizeof *T; i++) n += T[i] != 0; printf("STATS states=%%d calls=0 checks=%%d\\n", n, n); return n != %d; }' % n)
    return '\n'.join(o)
def proto(path): # exported function names declared in a call header
    t = re.sub(r'/\*.*?\*/|//[^\n]*', ' ', open(path).read(), flags=re.S); t = re.sub(r'^\s*#.*?$', '', t, flags=re.M)
    return re.findall(r'\b(glmc_\w+)\s*\(', t)
def exports(work):
    src = ['#include <stdio.h>\n#define CGLM_CLIPSPACE_INCLUDE_ALL\n#include <cglm/call.h>']
    hs = sorted(glob.glob(B.REPO + '/include/cglm/call/**/*.h', recursive=True)); src += ['#include "%s"' % h for h in hs]
    nm = sorted({n for h in hs for n in proto(h)} | {f['call'] for f in B.API if 'call' in f and 'custom' not in f})
    src += ['typedef void (*F)(void);\nstatic F T[] = {'] + ['(F)%s,' % n for n in nm] + ['};\nint main(void) { int n = 0; for (unsigned i = 0; i < sizeof T / sizeof *T; i++) n += T[i] != 0; printf("STATS states=%%d calls=0 checks=%%d\\n", n, n); return n != %d; }' % len(nm)]
    return '\n'.join(src)
def syntax(job):
    hs, fl, arch, (cc, x, std) = job
    src = ''.join('#include <%s>\n' % h for h in hs) + 'int main(void){return 0;}\n'
    r = subprocess.run([cc, x, '-std=' + std, '-w', '-fsyntax-only'] + INC + fl + arch.split() + ['-'], input=src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    return job, r.returncode, r.stdout
def sjobs(tier):
    jobs = []
    orders = [(a,) for a in ENT] + list(itertools.permutations(ENT, 2)) + [ENT[::-1]]
    for o in orders:
        for l in LANG: jobs.append((list(o), [], '', l))
    clip = sorted(glob.glob(B.REPO + '/include/cglm/clipspace/*.h') + glob.glob(B.REPO + '/include/cglm/handed/*.h'))
    for e in ENT:
        for h in clip:
            rel = os.path.relpath(h, B.REPO + '/include')
            sub = {'cglm/cglm.h': rel, 'cglm/struct.h': rel.replace('cglm/', 'cglm/struct/'), 'cglm/call.h': rel.replace('cglm/', 'cglm/call/')}[e]
            if os.path.exists(os.path.join(B.REPO, 'include', sub)):
                for l in (LANG[1], LANG[4]): jobs.append(([e, sub], [], '', l))
    for k in KN:
        for e in ENT:
            for l in (LANG if tier == 'thorough' else [LANG[0], LANG[4], LANG[8]]): jobs.append(([e], [k], '', l))
    for a, feat in ARCH:
        for e in ENT:
            for l in LANG: jobs.append(([e], [], a, l))
    if tier == 'thorough':
        for k, k2 in itertools.combinations(KN, 2):
            for a in ('', '-mavx2 -mfma'): jobs.append((ENT, [k, k2], a, LANG[2])); jobs.append((ENT, [k, k2], a, LANG[4]))
    for emu in ('-DCGLMV_NEON32', '-DCGLMV_NEON64', '-DCGLMV_WASM', '-DCGLMV_SCALAR'):
        pass
    return jobs
BOUNDS = 'the conversions to Apple simd types with every special value in every element (types emulated); every documented configuration macro alone and in pairs x C and C++ (9 compiler/standard combinations) x entry headers in every order, with and without each clip-space and handed header; every struct function under 6 naming configurations; every exported function; all types, constants, initializers and macro aliases in each configuration'
ARRAYS = {'C01': r'mulN|identity_array', 'C03': r'mulN|identity_array|pack', 'C04': r'mulN|identity_array|pack|build', 'C05': r'mulN_inputs', 'C10': r'mulN|mat\d_identity', 'C12': r'mat\d_identity|pack', 'C13': r'quat_identity'}
def arrays(prop):   # the array forms (loops over caller arrays), for the other properties whose statement covers them
    def v(n, cmd, run=True): return M.Variant('arrays ' + n, cmd.split() + ['-w'] + INC + [SRC], runnable=run)
    with M.Work() as w:
        vs = [v(cc.split()[0] + ' ' + (a or 'sse2') + ' ' + o, '%s %s %s' % (cc, a, o), B.runnable(f)) for a, f in ARCH for cc, o in (('gcc -xc -std=gnu11', '-O1'), ('g++ -xc++ -std=c++17', '-O2'), ('clang -xc -std=gnu11', '-O2'), ('gcc -xc -std=gnu11 -DCGLM_ALL_UNALIGNED', '-O3'))]
        vs += [v('asan', 'gcc -xc -std=gnu11 -O1 -g -fsanitize=address,undefined -fno-sanitize-recover=all')] + [x for x in linked(w)]
        st, per, samples, viol, notes = M.run_variants(vs, w, ('arrays',))
    return st, [dict(x, driver='c35.c') for x in viol if x['site'] in ('build', 'driver') or re.search(ARRAYS[prop], x['site'])]
def check(prop, spec, tier, seed):
    with M.Work() as w:
        vs = variants(tier) + linked(w)
        for n, fl, fn in namecfg():
            for lg, x in (('gcc', 'gnu11'),):
                p = os.path.join(w, 'names_%s.c' % n.replace('+', '_')); open(p, 'w').write(names_src(fn)); vs.append(M.Variant('names ' + n, [lg, '-std=' + x, '-w', '-O0', '-Werror=implicit-function-declaration'] + fl + INC + [p]))
        p = os.path.join(w, 'exports.c'); open(p, 'w').write(exports(w)); vs.append(M.Variant('exports', ['gcc', '-std=gnu11', '-w', '-O0'] + INC + [p, os.path.join(w, 'unity35.c')]))
        st, per, samples, viol, notes = M.run_variants(vs, w)
    jobs = sjobs(tier)
    with cf.ThreadPoolExecutor(M.NJ) as ex: res = list(ex.map(syntax, jobs))
    seen = set()
    for (hs, fl, a, l), rc, out in res:
        st['states'] += 1; st['checks'] += 1
        if rc:
            e = next((x for x in out.splitlines() if 'error' in x), out[:200])[:250]
            if e in seen: continue
            seen.add(e); viol.append({'site': 'headers', 'cfg': ' '.join([l[0], l[2]] + fl + [a]), 'surface': '', 'case': 0, 'msg': 'including %s does not compile: %s' % (', '.join(hs), e), 'detail': out[:2000], 'job': [hs, fl, a, l]})
    return M.cov(st, {k: per[k] for k in list(per)[:40]}, samples or ['%s %s %s with %s' % (l[0], l[2], ' '.join(fl), ', '.join(hs)) for hs, fl, a, l in jobs[::len(jobs) // 8]], BOUNDS, 'states: configuration programs and (configuration, value) points; transitions: calls into the library; traces_validated_against_impl: comparisons'), viol, ['the two installed compilers on x86-64 stand for the supported C and C++ compilers'], notes
def replay(v):
    if v.get('driver') == 'c35.c':
        st, viol = arrays(v['property'])
        for x in viol: print(x['detail'])
        return 1 if viol else 0
    if v.get('job'):
        j, rc, out = syntax(v['job']); print(out[:2000]); return 1 if rc else 0
    with M.Work() as w:
        vs = [x for x in variants('thorough') + linked(w) if x.name == v['cfg']]
        if not vs: print(v.get('detail', '')); return 1
        st, per, samples, viol, notes = M.run_variants(vs, w)
    for x in viol: print(x['detail'])
    return 1 if viol else 0
