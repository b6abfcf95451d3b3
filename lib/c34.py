import os, re, subprocess
import mini as M, build as B
SRC = SRC0 = os.path.join(M.HERE, 'drivers', 'c34.c')
CF = ['sse2', 'sse3', 'sse41', 'avx', 'avx2fma', 'clang_avx2', 'unaligned', 'unal_avx', 'gcc_O0', 'gcc_O3', 'clang', 'neon32', 'neon64', 'wasm']
def source(work):
    """the driver without the lines about internal helpers that this tree does not have"""
    have = set()
    for r, _, fs in os.walk(B.REPO + '/include/cglm'):
        for f in fs: have |= set(re.findall(r'\bglmm\w+', open(os.path.join(r, f), errors='replace').read()))
    t = open(SRC0).read(); miss = sorted(set(re.findall(r'\bglmm\w+', t)) - have)
    if not miss: return SRC0, miss
    p = os.path.join(work, 'c34.c'); open(p, 'w').write('\n'.join('' if any(re.search(r'\b%s\b' % m, l) for m in miss) else l for l in t.split('\n'))); return p, miss
def variants(tier):
    out = []
    for c in CF:
        cc, fl, _ = B.CONFIGS[c]
        out.append(M.Variant(c, [cc] + fl + ['-w', '-I', os.path.join(M.HERE, 'lib'), '-I', B.REPO + '/include'] + (['-DDEEP'] if tier == 'thorough' else []) + [SRC], runnable=B.runnable(c)))
    out.append(M.Variant('sse41_nodotmacro', ['gcc', '-std=gnu11', '-O2', '-w', '-msse4.1', '-I', B.REPO + '/include', SRC], runnable=B.runnable('sse41')))
    out.append(M.Variant('sse3_nodotmacro', ['gcc', '-std=gnu11', '-O2', '-w', '-msse3', '-I', B.REPO + '/include', SRC], runnable=B.runnable('sse3')))
    out.append(M.Variant('fma_avx1', ['gcc', '-std=gnu11', '-O2', '-w', '-mavx', '-mfma', '-I', B.REPO + '/include', SRC], runnable=B.runnable('avx2fma')))
    out.append(M.Variant('nointdom', ['gcc', '-std=gnu11', '-O2', '-w', '-DCGLM_NO_INT_DOMAIN', '-I', B.REPO + '/include', SRC]))
    return out
BOUNDS = 'every 4-tuple of a 23-value alphabet (incl. signed zeros, denormals, infinities, NaN; quick: 4-tuples with at most two of the last 9 leading) for one-argument helpers and all 256 shuffles; every pair of 5^4 (thorough 6^4) vectors for dot; every pair of the alphabet in every lane for two-argument and every triple of 16 values for fused helpers; 18 instruction-set builds'
def check(prop, spec, tier, seed):
    global SRC
    with M.Work() as w:
        SRC, miss = source(w); st, per, samples, viol, notes = M.run_variants(variants(tier), w)
    if miss: notes.append('helpers not in this tree: ' + ' '.join(miss)); print('NOTE: ' + notes[-1])
    # a build failure is a violation only where the library itself does not compile: a helper that was renamed or an intrinsic the stand-ins lack is a note
    for v in [v for v in viol if v['site'] == 'build']:
        cmd = next((x.cmd for x in variants(tier) if x.name == v['cfg']), None)
        bad = [c for c in [v['cfg']] + v.get('also_on', []) if c not in B.EMULATED and cmd and subprocess.run([a for a in next(x.cmd for x in variants(tier) if x.name == c) if a != SRC] + ['-xc', '-fsyntax-only', '-'], input='#include <cglm/cglm.h>\n#include <cglm/struct.h>\n', stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, text=True).returncode]
        if not bad: viol.remove(v); notes.append('not explored: %s %s: %s' % (v['cfg'], ' '.join(v.get('also_on', [])), v['msg'])); print('NOTE: ' + notes[-1][:300])
    return M.cov(st, per, samples, BOUNDS, 'states: (build, lane tuple) points; transitions: helper calls; traces_validated_against_impl: comparisons with the lane-wise reference'), viol, ['NEON and WASM builds run on the emulated intrinsics in lib/emu, not on hardware'], notes
def replay(v):
    global SRC
    with M.Work() as w:
        SRC, _ = source(w); st, per, samples, viol, notes = M.run_variants([x for x in variants('quick') if x.name == v['cfg']], w)
    for x in viol: print(x['detail'])
    return 1 if viol else 0
