#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below. Run by hand after editing; the outputs are committed."""
import os, sys, json, re, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(HERE, 'lib')); sys.dont_write_bytecode = True
import props as PR
INC = '/repo/include/cglm/'
T = []
def P(pid, title, statement, over, qtext, why, mech, files, tech=None, note=None):
    """mech: list of function (or macro) names; where is found in the files"""
    T.append(dict(pid=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, mech=mech, files=files, tech=tech, note=note))
exec(open(os.path.join(HERE, 'tools', 'properties_text.py')).read())
def where(name, files):
    for f in files:
        p = '/repo/' + f
        if not os.path.isfile(p): continue
        ls = open(p, errors='replace').read().split('\n')
        for pat in (r'^%s\s*\(' % re.escape(name), r'^\s*#\s*define\s+%s\b' % re.escape(name), r'\b%s\b' % re.escape(name)):
            for i, l in enumerate(ls):
                if re.search(pat, l) and not l.strip().startswith('*') and 'CGLM_INLINE' not in l: return '%s:%d' % (f, i + 1)
    return None
out, checks, na, bad = [], [], [], []
for t in T:
    mech = []
    for m in t['mech']:
        w = where(m, t['files'])
        if not w: bad.append((t['pid'], m)); continue
        mech.append({'name': m, 'where': w})
    d = {'id': t['pid'], 'title': t['title'], 'statement': t['statement'], 'quantifier': {'over': t['over'], 'text': t['qtext']}, 'why_tests_cant': t['why'], 'anchors': {'files': t['files'], 'mechanism': mech}}
    assert len(t['title']) <= 80, t['pid']
    if t['pid'] in PR.PROPS:
        out.append(d)
        sp = PR.PROPS[t['pid']]
        checks.append({'property': t['pid'], 'quick_cmd': 'python3 check.py %s' % t['pid'], 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % t['pid'],
            'technique': t['tech'] or 'bounded explicit-state exploration of the compiled code against an executable reference model',
            'level': 'model_checking', 'level_note': t['note'] or ('Every state in these bounds is executed on the real code in every listed build and compared with the model: %s. Values outside the alphabets are not covered; NEON and WebAssembly builds run on emulated intrinsics.' % sp['bounds'])})
open(os.path.join(HERE, 'properties.jsonl'), 'w').write(''.join(json.dumps(d) + '\n' for d in out))
m = {'version': 1, 'setup_cmd': 'true', 'hooks': {'guard': 'CGLM_VERIF (unused)', 'enable': 'no hooks: the checks compile the unmodified headers and sources of /repo', 'source_commits': []}, 'checks': checks, 'not_applicable': na,
     'notes': 'check.py builds everything it needs from /repo in a scratch directory on every run; replay with check.py --replay FILE.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(out), 'properties', len(checks), 'checks; missing:', [t['pid'] for t in T if t['pid'] not in PR.PROPS])
if bad: sys.exit('anchors not found: %s' % bad)
