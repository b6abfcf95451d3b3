"""Property modules that compile their own C/C++ drivers: compile variants in parallel, run, collect FAIL/STATS/SAMPLE lines.
A driver prints  FAIL <site> <case> <message>,  SAMPLE <text>,  STATS states=.. calls=.. checks=..  and exits 0.
With argument "only <case>" it prints details of that case."""
import os, subprocess, tempfile, shutil, re, concurrent.futures as cf
import build as B
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NJ = max(2, min(8, os.cpu_count() or 8))
class Variant:
    def __init__(self, name, cmd, optional=False, runnable=True): self.name, self.cmd, self.optional, self.runnable = name, cmd, optional, runnable   # cmd: compiler argv without -o
def run_variants(variants, work, args=(), timeout=800, env=None):
    """returns cov dict parts and violations"""
    def one(v):
        exe = os.path.join(work, re.sub(r'\W', '_', v.name))
        c = subprocess.run(v.cmd + ['-o', exe, '-lm', '-ldl', '-lpthread'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if c.returncode: return v, None, c.stdout
        if not v.runnable: return v, [], ''
        e = dict(os.environ, **(env or {}))
        try: r = subprocess.run([exe] + list(args), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, cwd=work, env=e)
        except subprocess.TimeoutExpired: return v, ['FAIL driver 0 does not terminate'], ''
        ls = r.stdout.splitlines()
        if r.returncode != 0: ls.append('FAIL driver 0 ended with status %d %s' % (r.returncode, ' | '.join(ls[-3:])[:300]))
        return v, ls, r.stdout
    viol, notes, samples, st = [], [], [], {'states': 0, 'calls': 0, 'checks': 0}; per = {}
    with cf.ThreadPoolExecutor(NJ) as ex: res = list(ex.map(one, variants))
    for v, ls, out in res:
        if ls is None:
            errs = [l for l in out.splitlines() if 'error' in l][:3] or out.splitlines()[-3:]
            if v.optional: notes.append('%s does not build: %s' % (v.name, ' | '.join(errs)[:400])); print('NOTE: ' + notes[-1])
            else: viol.append({'site': 'build', 'cfg': v.name, 'surface': '', 'case': 0, 'msg': 'does not compile: ' + ' | '.join(errs)[:400], 'detail': out[-3000:]})
            continue
        seen = {}
        for l in ls:
            m = re.match(r'FAIL (\S+) (\S+) (.*)', l)
            if m:
                s = seen.setdefault(m.group(1), [m.group(2), m.group(3), 0, l]); s[2] += 1
            elif l.startswith('SAMPLE ') and len(samples) < 14: samples.append('%s: %s' % (v.name, l[7:]))
            elif l.startswith('STATS '):
                for k, x in re.findall(r'(\w+)=(\d+)', l): st[k] = st.get(k, 0) + int(x); per.setdefault(v.name, {})[k] = int(x)
        for site, (case, msg, n, l) in seen.items(): viol.append({'site': site, 'cfg': v.name, 'surface': '', 'case': case, 'msg': msg, 'detail': '\n'.join([x for x in ls if x.startswith('FAIL ' + site)][:10])})
    # the same site failing in several variants is one violation
    merged, idx = [], {}
    for x in viol:
        k = (x['site'], x['msg'] if x['site'] == 'build' else '')
        if k in idx: idx[k].setdefault('also_on', []).append(x['cfg'])
        else: idx[k] = x; merged.append(x)
    return st, per, samples, merged, notes
def cov(st, per, samples, bounds, counting):
    c = {'states': st['states'], 'transitions': st['calls'], 'traces_validated_against_impl': st['checks'], 'counting': counting, 'samples': samples or ['none'], 'exhaustive': True, 'bounds': bounds, 'variants': per}
    for k in st:
        if k not in ('states', 'calls', 'checks'): c[k] = st[k]
    return c
class Work:
    def __enter__(self): self.d = tempfile.mkdtemp(prefix='cglmv_'); return self.d
    def __exit__(self, *a): shutil.rmtree(self.d, ignore_errors=True)
