#!/usr/bin/env python3
"""check.py PROPERTY            run the check of one property (tier from VERIF_TIER, default quick)
   check.py --replay FILE       rebuild from /repo and replay one recorded violation
Exit 0: held on everything explored; exit 1 with a VIOLATION line otherwise."""
import sys, os, json, time, shutil, tempfile, fnmatch, subprocess, re, importlib, concurrent.futures as cf
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import build as B
import props as P
NJ = max(2, min(8, os.cpu_count() or 8))
EVID = os.path.join(HERE, 'evidence')
REPLAYS = os.path.join(EVID, 'replays')

def known():
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) site=(\S+) match=/(.*?)/ (.*)', l.strip())
            if m: out.append(m.groups())
    return out

def compile_driver(work, src):
    out = os.path.join(work, 'driver')
    r = B.run(['g++', '-std=gnu++17', '-O1', '-g0', '-w', '-I', work, '-I', os.path.join(HERE, 'lib'), '-I', os.path.join(HERE, 'drivers'), src, '-o', out, '-ldl', '-lm', '-rdynamic'])
    if r.returncode: raise RuntimeError('driver does not compile:\n' + r.stderr[-4000:])
    return out

def globs_of(src):
    t = open(src).read(); g = []
    for m in re.finditer(r'^// API: (.*)$', t, re.M): g += m.group(1).split()
    return g
def select(globs):
    names = set()
    for f in B.API:
        if any(fnmatch.fnmatchcase(f['name'][4:], g) for g in globs): names.add(f['name'])
    return names

def run_driver_prop(prop, spec, tier, work, only=None):
    """returns (results list, notes). builds the libraries and the driver, runs every site on every build"""
    src = os.path.join(HERE, 'drivers', spec['driver'])
    names = select(globs_of(src))
    b = B.Builder(work, names)
    pairs = only or P.pairs(spec, tier)
    pairs = [(c, s) for c, s in pairs if B.runnable(c)]
    notes = ['cpu cannot run: ' + c for c in sorted({c for c, s in P.pairs(spec, tier) if not B.runnable(c)})]
    with cf.ThreadPoolExecutor(NJ) as ex:
        fd = ex.submit(compile_driver, work, src)
        futs = [(c, s, ex.submit(b.so, c, s)) for c, s in pairs]
        libs = []
        for c, s, f in futs:
            p, err = f.result()
            if p is None:
                notes.append('build %s/%s failed: %s' % (c, s, err.strip()[:300]))
                print('NOTE: %s/%s does not build: %s' % (c, s, err.strip()[:300]))
                if (c, s) == ('sse2', 'inline'): raise RuntimeError('the default configuration does not compile:\n' + err)
            else: libs.append('%s:%s:%s' % (c, s, p))
        drv = fd.result()
    return drv, libs, notes

def main_driver(prop, spec, tier, seed, t0):
    work = tempfile.mkdtemp(prefix='cglmv_%s_' % prop)
    try:
        drv, libs, notes = run_driver_prop(prop, spec, tier, work)
        cmd = [drv, '-j', str(NJ)] + (['--site', ','.join(spec['sites'])] if spec.get('sites') else []) + (['--thorough', '--cpu', '3000'] if tier == 'thorough' else []) + libs
        r = B.run(cmd)
        if r.returncode: raise RuntimeError('driver failed: %s' % (r.stderr[-2000:]))
        res = [json.loads(l) for l in r.stdout.splitlines() if l.startswith('{')]
        viol = []
        done = {}
        for x in sorted(res, key=lambda x: (x['surface'] != 'inline', x['cfg'] != 'sse2')):
            if x['nfail'] == 0: continue
            if x['site'] in done: done[x['site']].append(x['cfg'] + '/' + x['surface']); continue
            lib = next(l for l in libs if l.startswith('%s:%s:' % (x['cfg'], x['surface'])))
            f = x['fails'][0]
            out = ''
            if x['status'] == 'fail':
                try: q = subprocess.run([drv, '--site', x['site'], '--case', str(f['case'])] + (['--thorough'] if tier == 'thorough' else []) + [lib], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=600)
                except subprocess.TimeoutExpired: continue
                out = q.stdout
                if 'FAILED' not in out:
                    notes.append('not reproduced: %s' % x); print('NOTE: not reproduced', x['site'], f); continue
            else:
                q = B.run([drv, '--site', x['site'], '--cpu', '400'] + (['--thorough'] if tier == 'thorough' else []) + [lib])
                y = [json.loads(l) for l in q.stdout.splitlines() if l.startswith('{')]
                if not y or y[0]['nfail'] == 0: notes.append('not reproduced: %s' % x); continue
                out = q.stdout
            done[x['site']] = x['also'] = []
            viol.append((x, f, out))
        return res, viol, notes, len(libs)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def report(prop, tier, seed, t0, cov, viol, assumptions, notes):
    """viol: list of dict(site, cfg, surface, case, msg, detail)"""
    os.makedirs(REPLAYS, exist_ok=True)
    kn = [k for k in known() if k[0] == prop]
    new = []; seen = set()
    for v in viol:
        hit = [k for k in kn if k[1] == v['site'] and re.search(k[2], v['msg'])]
        if hit:
            if hit[0] not in seen: print('KNOWN-FINDING: property=%s %s' % (prop, hit[0][3])); seen.add(hit[0])
        else: new.append(v)
    for fn in os.listdir(REPLAYS):
        if fn.startswith(prop + '-'): os.unlink(os.path.join(REPLAYS, fn))
    for v in new[:20]:
        fn = re.sub(r'[^A-Za-z0-9_.-]', '_', '%s-%s-%s-%s.json' % (prop, v['site'], v['cfg'], v['surface']))
        path = os.path.join(REPLAYS, fn)
        json.dump(dict(v, property=prop, tier=tier, replay='python3 %s/check.py --replay %s' % (HERE, path)), open(path, 'w'), indent=1)
        print('%s [%s/%s] case %s: %s%s' % (v['site'], v['cfg'], v['surface'], v['case'], v['msg'], '  (also on ' + ' '.join(v['also_on']) + ')' if v.get('also_on') else ''))
        for l in (str(v.get('detail', '')).splitlines()[:12] if new.index(v) < 3 else []): print('    ' + l)
        print('VIOLATION property=%s replay=%s' % (prop, path))
    cov['notes'] = notes
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov, 'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)
    print('%s %s: states=%s transitions=%s comparisons=%s wall=%.1fs violations=%d' % (prop, tier, cov['states'], cov['transitions'], cov['traces_validated_against_impl'], time.time() - t0, len(new)))
    return 1 if new else 0

def summarize(res, nlibs, spec):
    sites = {}
    for x in res:
        s = sites.setdefault(x['site'], {'states_per_build': 0, 'builds': 0, 'calls': 0, 'checks': 0, 'skipped': 0, 'distinct_outcomes': 0})
        if x['states']: s['builds'] += 1
        s['states_per_build'] = max(s['states_per_build'], x['states']); s['calls'] += x['calls']; s['checks'] += x['checks']; s['skipped'] += x['skipped']
        s['distinct_outcomes'] = max(s['distinct_outcomes'], x['outcomes'])
    samples = []
    for x in res:
        if x['samples'] and x['surface'] == 'inline' and x['cfg'] == 'sse2': samples += ['%s: %s' % (x['site'], s) for s in x['samples'][:2]]
    builds = sorted({x['cfg'] + '/' + x['surface'] for x in res if x['states']})
    return {'states': sum(x['states'] for x in res), 'transitions': sum(x['calls'] for x in res), 'traces_validated_against_impl': sum(x['checks'] - x['skipped'] for x in res),
            'counting': 'states: enumerated (build, site, input tuple or operation sequence) points; transitions: calls of real library functions; traces_validated_against_impl: results of those calls compared with the reference model',
            'samples': samples[:12] or ['none'], 'exhaustive': True, 'bounds': spec.get('bounds', ''), 'builds': builds, 'sites': sites}

def arrays(prop, cov, viol):
    c35 = importlib.import_module('c35')
    if prop not in c35.ARRAYS: return
    st, v = c35.arrays(prop); viol += v
    cov['states'] += st['states']; cov['transitions'] += st['calls']; cov['traces_validated_against_impl'] += st['checks']

def main(argv):
    t0 = time.time()
    if argv and argv[0] == '--replay':
        v = json.load(open(argv[1])); spec = P.PROPS[v['property']]
        if v.get('driver') == 'c35.c': return importlib.import_module('c35').replay(v)
        if 'module' in spec: return importlib.import_module(spec['module']).replay(v)
        work = tempfile.mkdtemp(prefix='cglmv_replay_')
        try:
            if v.get('driver'): spec = dict(spec, driver=v['driver'])
            drv, libs, notes = run_driver_prop(v['property'], spec, v['tier'], work, only=[(v['cfg'], v['surface'])])
            q = subprocess.run([drv, '--site', v['site'], '--case', str(v['case'])] + (['--thorough'] if v['tier'] == 'thorough' else []) + libs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            print(q.stdout); return 1 if 'FAILED' in q.stdout or q.returncode < 0 else 0
        finally: shutil.rmtree(work, ignore_errors=True)
    prop = argv[0]; tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv: tier = argv[argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = P.PROPS[prop]
    if 'module' in spec:
        cov, viol, assumptions, notes = importlib.import_module(spec['module']).check(prop, spec, tier, seed)
        arrays(prop, cov, viol)
        return report(prop, tier, seed, t0, cov, viol, assumptions, notes)
    res, viol, notes, nl = [], [], [], 0
    for sp in [spec] + P.related(prop):
        r, v, n, k = main_driver(prop, sp, tier, seed, t0); res += r; notes += n; nl += k
        viol += [(x, f, out, sp['driver']) for x, f, out in v]
    vs = [{'driver': drv, 'site': x['site'], 'cfg': x['cfg'], 'surface': x['surface'], 'case': f['case'], 'msg': f['msg'], 'detail': out, 'also_on': x.get('also', [])} for x, f, out, drv in viol]
    cov = summarize(res, nl, spec); arrays(prop, cov, vs)
    return report(prop, tier, seed, t0, cov, vs, spec.get('assumptions', P.ASSUME), notes)

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
