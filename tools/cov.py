"""Development-time: which API functions each driver mentions, and suspicious sites."""
import json,sys,re,glob
E='/verif/evidence/'
for p in sys.argv[1:]:
    d=json.load(open(E+p+'.json'))['coverage']
    for n,s in d.get('sites',{}).items():
        if s['builds']==0 or s['distinct_outcomes']<2: print(p,n,s)
api=json.load(open('/verif/lib/api.json'))
pp=''
for f in glob.glob('/verif/drivers/*.cpp'):
    import subprocess
    t=subprocess.run(['g++','-E','-P','-I/verif/lib','-I/tmp/bw',f],capture_output=True,text=True).stdout
    i=t.find('int cglmv_main'); pp+=t[i:]
used=set(re.findall(r'\bglm_\w+',pp))
import collections
d=collections.defaultdict(list)
for f in api:
    if f['name'] not in used: d[f['header']].append(f['name'][4:])
for h in d: print('not exercised',h,len(d[h]),' '.join(d[h]) if len(sys.argv)<2 else '')
