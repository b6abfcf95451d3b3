#!/usr/bin/env python3
"""seed.py FILE...: each FILE describes planted bugs as python dicts; writes /verif/seeded/<id>/, confirms each in a scratch copy and runs the property's check against it.
entry: id, prop, file, edits=[(old,new)...] (or files={path:[(old,new)]}), demo (C source body), cflags, needs, breaks"""
import sys, os, subprocess, shutil, json, tempfile, glob
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
DEMO = '#!/bin/sh\nd=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\n%s %s -I"$PWD/include" "$d/demo.%s" -o "$t/demo" %s -lm || exit 2\n"$t/demo"\n'
def main(files, only):
    es = []
    for f in files:
        g = {}; exec(open(f).read(), g); es += g['SEEDS']
    for e in es:
        if only and e['id'] not in only: continue
        d = '/verif/seeded/' + e['id']
        if os.path.exists(d + '/meta.json') and not only: continue
        w = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
        try:
            sh('cp -a /repo %s/repo && cd %s/repo && git checkout -q -- .' % (w, w))
            fs = e.get('files') or {e['file']: e['edits']}
            ok = True
            for p, ed in fs.items():
                q = '%s/repo/%s' % (w, p); s = open(q).read()
                for x in ed:
                    old, new = x[0], x[1]; n = x[2] if len(x) > 2 else None
                    c = s.count(old)
                    if c == 0 or (c > 1 and n is None): print(e['id'], 'EDIT matches', c, 'times:', old[:60]); ok = False; break
                    if n is None: s = s.replace(old, new)
                    else:
                        parts = s.split(old); s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
                open(q, 'w').write(s)
            if not ok: continue
            os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'w').write(sh('cd %s/repo && git diff' % w).stdout)
            ext = e.get('ext', 'c')
            open(d + '/demo.' + ext, 'w').write(e['demo'])
            cc = e.get('cc', 'gcc' if ext == 'c' else 'g++')
            open(d + '/demo.sh', 'w').write(DEMO % (cc, '-w -O1 ' + e.get('cflags', ''), ext, e.get('libs', '')))
            os.chmod(d + '/demo.sh', 0o755)
            json.dump({'property': e['prop'], 'needs': e['needs'], 'what_it_breaks': e['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            r0 = sh('timeout 300 sh %s/demo.sh' % d, cwd='/repo'); r1 = sh('timeout 300 sh %s/demo.sh' % d, cwd=w + '/repo')
            # tests on the patched tree (suite built directly from the copy)
            tst = 'skipped'
            if '--notest' not in sys.argv:
                sh('cd %s/repo && rm -rf _build && cmake -S . -B _build -G Ninja -DCMAKE_C_COMPILER=/usr/bin/gcc -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCGLM_SHARED=ON -DCGLM_STATIC=OFF -DCGLM_USE_TEST=ON -DFETCHCONTENT_FULLY_DISCONNECTED=ON >/dev/null 2>&1; ninja -C _build -j8' % w)
                q = sh('gcc -shared -fPIC -o %s/fs.so /opt/vp/fixedseed.c; cd %s/repo/_build && timeout 120 env LD_PRELOAD=%s/fs.so ./tests' % (w, w, w)); tst = 'rc=%d' % q.returncode
                if q.returncode: tst += ' ' + ' | '.join([l for l in q.stdout.splitlines() if '\u2716' in l or 'fail' in l.lower()][:4])[:300]
            caught = {}
            for p in [e['prop']] + e.get('also', []):
                env = dict(os.environ, CGLM_REPO=w + '/repo')
                q = sh('python3 /verif/check.py %s' % p, env=env); caught[p] = 'CAUGHT' if q.returncode == 1 and 'VIOLATION property=%s' % p in q.stdout else 'MISSED'
                if caught[p] == 'MISSED' or '-v' in sys.argv: print(q.stdout[-400:])
            bad = '' if r0.returncode == 0 and r1.returncode not in (0, 2) and tst in ('rc=0', 'skipped') else '   <<<< INVALID'
            print(e['id'], 'demo clean=%d patched=%d tests %s' % (r0.returncode, r1.returncode, tst), caught, bad, flush=True)
            if r0.returncode: print(r0.stdout[-500:])
            if bad: shutil.rmtree(d)
        finally: shutil.rmtree(w, ignore_errors=True)
a = [x for x in sys.argv[1:] if not x.startswith('-')]
main([x for x in a if x.endswith('.py')], [x for x in a if not x.endswith('.py')])
