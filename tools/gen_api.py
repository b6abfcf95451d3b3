#!/usr/bin/env python3
"""Development-time tool: snapshots the public API of cglm into api.json.
Checks use the committed snapshot, so helpers added later by a refactoring do not
change what is checked.  Written-parameter directions are added by dirs.py."""
import re, subprocess, json, sys
SRC = r'''
#define CGLM_CLIPSPACE_INCLUDE_ALL
#define CGLM_DEFINE_PRINTS
#include <cglm/cglm.h>
#include <cglm/handed/euler_to_quat_lh.h>
#include <cglm/handed/euler_to_quat_rh.h>
#include <cglm/struct.h>
#include <cglm/struct/aabb2d.h>
#include <cglm/struct/aabb2d.h>
#
#include <cglm/call.h>
'''
pre = subprocess.run(['gcc','-I/repo/include','-E','-x','c','-'],input=SRC,capture_output=True,text=True,check=True).stdout
# remember which header each line is from
cur=''; chunks=[]
for ln in pre.split('\n'):
    m=re.match(r'# \d+ "(.*?)"',ln)
    if m: cur=m.group(1); continue
    chunks.append((cur,ln))
text=''; marks=[]
for f,l in chunks:
    if '/cglm/' in f:
        marks.append((len(text),f.split('/cglm/',1)[1])); text+=l+'\n'
import bisect
pos=[m[0] for m in marks]
def hdr(p): return marks[bisect.bisect_right(pos,p)-1][1]
SZ={'vec2':2,'vec3':3,'vec4':4,'versor':4,'mat2':4,'mat3':9,'mat4':16,'mat2x3':6,'mat2x4':8,'mat3x2':6,'mat3x4':12,'mat4x2':8,'mat4x3':12,
    'ivec2':2,'ivec3':3,'ivec4':4}
def params(a):
    out=[]
    a=a.strip()
    if a in('void',''): return out
    for p in a.split(','):
        p=re.sub(r'\b(__restrict|restrict)\b','',p).strip(); p=re.sub(r'\s+',' ',p)
        m=re.match(r'(.*?)(\w+)\s*((?:\[\w*\])*)$',p)
        if not m: return None
        t=m.group(1).strip().replace(' *','*'); out.append((t,m.group(2),m.group(3)))
    return out
F={}
for m in re.finditer(r'static inline __attribute\(\(always_inline\)\)\s+((?:const )?\w+)\s+(\w+)\s*\(([^(){};]*)\)\s*\{',text):
    F[m.group(2)]=(m.group(1),params(m.group(3)),hdr(m.start()))
C={}
for m in re.finditer(r'__attribute__\(\(visibility\("default"\)\)\)\s*((?:const )?\w+)\s+(glmc_\w+)\s*\(([^(){};]*)\)\s*;',text):
    C[m.group(2)]=(m.group(1),params(m.group(3)))
OV={('glm_vec2','v'):2,('glm_ivec2','v'):2}
api=[];skip=[]
for n,(r,ps,h) in sorted(F.items()):
    if not n.startswith('glm_') or re.search(r'_(sse2|avx|neon|wasm)$',n): continue
    P=[];ok=True
    if r=='_Bool': r='bool'
    for t,pn,dim in ps:
        k=re.sub('const ','',t)
        if dim=='' and k in SZ: P.append(dict(name=pn,kind='ptr',ctype=k,base='i' if k[0]=='i' else 'f',n=SZ[k]))
        elif k in SZ and re.match(r'\[\d\]$',dim): P.append(dict(name=pn,kind='ptr',ctype=k,arr=int(dim[1]),base='i' if k[0]=='i' else 'f',n=SZ[k]*int(dim[1])))
        elif k=='float' and dim=='': P.append(dict(name=pn,kind='val',ctype='float',base='f',n=1))
        elif k in('int','glm_euler_seq') and dim=='': P.append(dict(name=pn,kind='val',ctype=k,base='i',n=1))
        elif k in('float','int') and re.match(r'\[\d\]$',dim): P.append(dict(name=pn,kind='ptr',ctype=k,arr=int(dim[1]),base=k[0],n=int(dim[1])))
        elif k in('float*','int*') and dim=='':
            nn=OV.get((n,pn),1)
            if pn=='src': nn=SZ[n.split('_')[1].replace('quat','versor')]
            P.append(dict(name=pn,kind='ptr',ctype=k[:-1],raw=True,base=k[0],n=nn))
        else: ok=False
    if r not in('void','float','int','bool','glm_euler_seq'): ok=False
    if not ok: skip.append((n,r,ps)); continue
    e=dict(name=n,ret=r,params=P,header=h)
    c='glmc_'+n[4:]
    if c in C:
        cr,cp=C[c]
        assert [(re.sub('const ','',x[0]),x[2]) for x in cp]==[(re.sub('const ','',x[0]),x[2]) for x in ps] and cr.replace('_Bool','bool')==r,(n,cp,ps)
        e['call']=c
    s='glms_'+n[4:]
    if s in F: e['struct']=s; e['sparams']=F[s][1]; e['sret']=F[s][0]
    api.append(e)
json.dump(api,open('api_raw.json','w'),indent=0)
print(len(api),'functions'); print('skipped',[s[0] for s in skip])
print('call w/o inline',[c for c in C if 'glm_'+c[5:] not in F])
print('struct w/o inline',[c for c in F if c.startswith('glms_') and 'glm_'+c[5:] not in F])
