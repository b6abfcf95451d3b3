"""C01..C05: explorations over the whole API with drivers/generic.cpp and drivers/threads.cpp."""
import os, json, re, subprocess, concurrent.futures as cf
import mini as M, build as B
I, C, S = 'inline', 'call', 'struct'
RH = ['sse2', 'sse3', 'sse41', 'avx', 'avx2fma', 'clang_avx2', 'nointdom', 'unaligned', 'unal_avx', 'gcc_O0', 'gcc_O3', 'clang', 'clipall', 'neon32', 'neon64', 'wasm']
def jobs(prop, tier):
    """list of (driver, options, [(cfg, surface), ...]); in mode eq the first library is the reference"""
    T = tier == 'thorough'; o = ['--thorough'] if T else []
    if prop == 'C01':
        ch = ['--chains'] + (['--depth', '3'] if T else []); o = o + (['--cap', '20000', '--sets', '4'] if T else ['--cap', '2000', '--sets', '2'])
        return [('generic', ['eq'] + ch + o, [('scalar', I)] + [(c, I) for c in RH]),
                ('generic', ['eq', '--chains'] + o, [('lh_no_scal', I), ('lh_no', I), ('lh_no_avx', I)]),
                ('generic', ['eq', '--chains'] + o, [('rh_zo_scal', I), ('rh_zo', I)]),
                ('generic', ['eq', '--chains'] + o, [('lh_zo_scal', I), ('lh_zo', I)])]
    if prop == 'C03':
        cf_ = ['sse2', 'scalar', 'gcc_O0', 'avx2fma', 'lh_no', 'rh_zo', 'lh_zo', 'unaligned', 'clang'] if not T else [c for c in B.CONFIGS if c not in B.EMULATED]
        return [('generic', ['eq', '--chains'] + o + (['--cap', '10000', '--sets', '3'] if T else ['--cap', '1000', '--sets', '1']), [(c, s) for s in (I, C, S)]) for c in cf_]
    if prop == 'C02':
        return [('generic', ['alias'] + o + ['--cap', '2000' if T else '200'], [('scalar', I)] + [(c, I) for c in RH + ['lh_zo', 'rh_zo_scal']] + [('sse2', C), ('scalar', C), ('avx2fma', C)])]
    if prop == 'C04':
        return [('generic', ['mem'] + o + ['--cap', '120' if T else '12'], [('scalar', I)] + [(c, I) for c in RH + ['lh_zo', 'lh_no_avx']] + [(c, s) for c in (('sse2', 'gcc_O0') if not T else ('sse2', 'gcc_O0', 'scalar', 'avx2fma', 'unal_avx', 'clang')) for s in (C, S)])]
    if prop == 'C05':
        return [('generic', ['state'] + o, [(c, s) for c in ('sse2', 'scalar', 'gcc_O0', 'gcc_O3', 'clang', 'avx2fma') for s in (I, C, S)] + [(c, I) for c in ('neon64', 'wasm', 'lh_zo')]),
                ('threads', o, [('ts_scalar', I), ('ts_sse2', I), ('ts_sse2', C), ('ts_sse2', S)] + ([('ts_lh_zo', I), ('ts_scalar', C), ('ts_scalar', S)] if T else []))]
BOUNDS = {
 'C01': '807 operations and 17 adapters x up to 2000 argument tuples (thorough 20000; products of reduced pools plus every single-argument variation) plus 12 bases (thorough 48) of unusual tuples (every argument with changed signs, vanishing, equal, permuted, scaled or rounded components, special matrices and rotations; every pair of arguments equal, opposite, parallel, perpendicular and nearly so), and every chain of two operations where the first one\'s results feed the second (thorough: chains of three); 17 builds in the default clip space, 3 + 2 + 2 builds in the others; the reference is the portable scalar build',
 'C02': 'every partition of the same-typed pointer parameters of every operation into shared objects (one written parameter per object) x up to 200 argument tuples (thorough 2000) plus the unusual tuples of 3 bases (thorough 12) x every build',
 'C03': '735 library and 701 struct functions against the inline functions: up to 1000 argument tuples (thorough 10000), the unusual tuples of 12 bases (thorough 48) and every two-step chain, in 9 configurations (thorough: all native ones)',
 'C04': 'every operation x 12 argument tuples (thorough 120): all arguments flush against a following and a preceding inaccessible page, input-only arguments in read-only memory, each argument alone at every admissible alignment within 64 bytes, two previous contents of outputs and stack; the unusual tuples of 2 bases (thorough 6; also with NaN, infinities and huge values) flush against both pages; 20 inline builds and library/struct builds',
 'C05': 'histories: every ordered pair of operations x up to 4 argument tuples (thorough 8), and every f(x)f(y)f(x)f(x)f(y) history; up to 400 tuples (thorough 4000) and 3 bases (thorough 8) of unusual tuples of every operation for changes of library memory, each such call repeated 600 times and followed by every operation over its tuples; schedules: every ordered pair of operations with every single preemption point at memory-access granularity, every pair of calls of the same operation with two preemptions (thorough: two and three), footprints of the same up to 400 tuples and unusual tuples of every operation, up to three of each footprint kept; conflicting pairs explored exhaustively within the bound, from the initial state and after each kept call'}
COUNT = {
 'C01': 'states: (operation or chain, argument tuple) points; transitions: calls of real functions (each state calls the reference six times to measure its sensitivity and every other build once); traces_validated_against_impl: word comparisons',
 'C02': 'states: (build, operation, partition, tuple) points; transitions: calls; traces_validated_against_impl: word comparisons with the separate-object result',
 'C03': 'as for C01, the inline interface being the reference',
 'C04': 'states: (build, operation, tuple, placement, previous contents) points; transitions: calls under guard pages; traces_validated_against_impl: memory images compared',
 'C05': 'states: explored schedules and histories; transitions: context switches and calls; traces_validated_against_impl: results compared with the call run alone'}
def build(work, prop, tier, only=None):
    b = B.Builder(work); js = jobs(prop, tier)
    need = {}
    for d, o, l in js:
        for x in l: need[x] = d
    notes = []; libs = {}; viol = []
    def drv(d):
        out = os.path.join(work, d); r = B.run(['g++', '-O2', '-std=gnu++17', '-w', '-I', work, '-I', os.path.join(M.HERE, 'lib'), os.path.join(M.HERE, 'drivers', d + '.cpp'), '-o', out, '-ldl', '-rdynamic'])
        if r.returncode: raise RuntimeError('driver does not compile:\n' + r.stderr[-3000:])
        return out
    with cf.ThreadPoolExecutor(M.NJ) as ex:
        ds = {d: ex.submit(drv, d) for d in {j[0] for j in js}}
        fs = {x: ex.submit(b.so, *x) for x in need if B.runnable(x[0])}
        for x in need:
            if x not in fs: notes.append('cpu cannot run ' + x[0]); continue
            so, err = fs[x].result()
            if so: libs[x] = so; continue
            notes.append('%s/%s does not build: %s' % (x[0], x[1], err.strip()[:300])); print('NOTE: ' + notes[-1])
            if x[0] not in B.EMULATED and (prop in ('C01', 'C03')): viol.append({'site': 'build', 'cfg': x[0], 'surface': x[1], 'case': 0, 'msg': 'does not compile: ' + err.strip()[:300], 'detail': err})
        exes = {d: f.result() for d, f in ds.items()}
    return js, libs, exes, viol, notes
def check(prop, spec, tier, seed, only=None):
    with M.Work() as w:
        js, libs, exes, viol, notes = build(w, prop, tier)
        st = {}; runs = []; fails = {}
        for d, o, l in js:
            have = [x for x in l if x in libs]
            if len(have) < (2 if o and o[0] == 'eq' else 1) or (o and o[0] == 'eq' and have[0] != l[0]): notes.append('skipped a group: its reference does not build'); continue
            r = B.run([exes[d]] + o + (['--only', only] if only else []) + ['-j', str(M.NJ)] + ['%s:%s:%s' % (x[0], x[1], libs[x]) for x in have])
            part = {}; died = 0
            for line in r.stdout.splitlines():
                try: j = json.loads(line)
                except ValueError: continue
                if 'stats' in j:
                    for k, v in j.items():
                        if k != 'stats': part[k] = part.get(k, 0) + v
                elif 'combo' in j: part['partitions'] = part.get('partitions', 0) + 1
                elif 'died' in j: died += 1
                elif 'fn' in j: fails.setdefault(j['fn'], []).append(dict(j, ref='%s/%s' % l[0] if o and o[0] == 'eq' else ''))
            if died or not part: raise RuntimeError('exploration did not finish: %s %s' % (o, r.stderr[-500:]))
            part.pop('nfail', None); runs.append({'mode': ' '.join([d] + o), 'builds': ['%s/%s' % x for x in have], **part})
            for k, v in part.items(): st[k] = st.get(k, 0) + v
        for fn, fl in sorted(fails.items()):
            f = fl[0]; cfg, surf = f['lib'].split('/')
            viol.append({'site': fn, 'cfg': cfg, 'surface': surf, 'case': f['case'], 'msg': '%s%s' % (f['msg'], ' (reference: %s)' % f['ref'] if f['ref'] else ''), 'detail': '\n'.join('%s: %s %s' % (x['lib'], x['msg'], x['args']) for x in fl[:6]), 'also_on': sorted({x['lib'] for x in fl} - {f['lib']})})
        cov = {'states': st.get('states', 0) + st.get('schedules', 0), 'transitions': st.get('calls', 0) + st.get('switches', 0), 'traces_validated_against_impl': st.get('checks', 0), 'counting': COUNT[prop], 'exhaustive': True, 'bounds': BOUNDS[prop], 'runs': runs,
               'samples': ['%s: %s' % (r['mode'], {k: v for k, v in r.items() if isinstance(v, int)}) for r in runs]}
        cov.update({k: v for k, v in st.items() if k not in ('states', 'calls', 'checks')})
        if not only and cov['states'] < 1000: raise RuntimeError('nothing explored')
        return cov, viol, ['x86-64 host executes SSE/AVX/FMA builds natively; NEON and WebAssembly builds run on stand-in intrinsic headers (lib/emu)', 'results are compared up to rounding: 8 times the measured sensitivity of the reference to input perturbations of 6e-7 plus 4e-6 of the result magnitude' if prop in ('C01', 'C02', 'C03') else 'sequentially consistent memory: schedules interleave single memory accesses'], notes
def replay(v):
    cov, viol, a, n = check(v['property'], None, v.get('tier', 'quick'), 1, only=None if v['site'] == 'build' else v['site'])
    hit = [x for x in viol if x['site'] == v['site']]
    for x in hit: print(x['site'], x['cfg'], x['msg']); print(x['detail'])
    return 1 if hit else 0
