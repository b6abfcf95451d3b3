import json,os,re
s=open('/verif/DESIGN.md').read()
rows=[]
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m.get('caught_by',m['property'])} | {m['needs'][:160].replace('|','/')} |")
a=s.index('| change | caught by | needs |'); b=s.index('\nAlso caught by a second check')
old=dict((r.split('|')[1].strip(),r.split('|')[2].strip()) for r in s[a:b].split('\n')[2:] if r.startswith('|'))
out=[]
for r in rows:
    p=[x.strip() for x in r.split('|')]
    if p[1] in old: p[2]=old[p[1]]
    out.append(f"| {p[1]} | {p[2]} | {p[3]} |")
s=s[:a]+'| change | caught by | needs |\n|---|---|---|\n'+'\n'.join(out)+'\n'+s[b:]
open('/verif/DESIGN.md','w').write(s)
print(len(out))
