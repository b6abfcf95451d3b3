#!/usr/bin/env python3
"""Development-time: determines which pointer parameters a function writes (and whether the
result depends on their previous contents) and writes api.json from api_raw.json."""
import json, ctypes as C, random, struct, os, subprocess
raw=json.load(open('api_raw.json'))
for f in raw:
    for p in f['params']: p['dir']='in' if p['kind']=='val' else 'inout'
json.dump(raw,open('api.json','w'),indent=0)
import build
b=build.Builder('/tmp/s/dirs')
for f in ('shim_inline.c',):
    try: os.unlink('/tmp/s/dirs/'+f)
    except OSError: pass
so,err=b.so('scalar'); assert so,err
L=C.CDLL(so); G=(C.c_void_p*len(raw)).in_dll(L,'cglm_gen')
FT=C.CFUNCTYPE(None,C.POINTER(C.c_void_p))
rnd=random.Random(5)
def mk(p):
    if p['base']=='f':
        m=rnd.choice([1,1,3,0.5,10])
        v=[rnd.uniform(-m,m) for _ in range(p['n'])]
        if rnd.random()<.2: v=[abs(x)+.1 for x in v]
        return v
    return [rnd.randint(1,3) if p['kind']=='val' or 1 else 0 for _ in range(p['n'])]
for f,g in zip(raw,list(G)):
    P=f['params'];fn=FT(g)
    written=[False]*len(P); dep=[False]*len(P)
    for t in range(300):
        vals=[mk(p) for p in P]
        if f['name']=='glm_euler_by_order': vals[1]=[rnd.choice([36,33,9,18,6,24])]
        def call(vals):
            bufs=[((C.c_float if p['base']=='f' else C.c_int)*(max(p['n'],1)+16))() for p in P]
            bs=[]
            for p,v in zip(P,vals):
                raw_=(C.c_char*(256+64))(); a=C.addressof(raw_); off=(-a)%64
                arr=((C.c_float if p['base']=='f' else C.c_int)*p['n']).from_buffer(raw_,off)
                arr[:]=v; bs.append((raw_,arr))
            r=C.c_int(0)
            A=(C.c_void_p*(len(P)+1))(*[C.addressof(x[1]) for x in bs],C.addressof(r))
            before=[bytes(x[1]) for x in bs]
            fn(A)
            return before,[bytes(x[1]) for x in bs],bytes(r) if f['ret']!='void' else b''
        b0,a0,r0=call(vals)
        for i,p in enumerate(P):
            if p['kind']=='val': continue
            if b0[i]!=a0[i]: written[i]=True
        for i,p in enumerate(P):
            if p['kind']=='val' : continue
            v2=list(vals); v2[i]=mk(p)
            b1,a1,r1=call(v2)
            if r1!=r0 or any((a0[k]!=a1[k]) for k in range(len(P)) if k!=i) : dep[i]=True
            if written[i] and a0[i]!=a1[i] : dep[i]=True
    for i,p in enumerate(P):
        if p['kind']=='val': p['dir']='in'
        elif not written[i]: p['dir']='in'
        else: p['dir']='inout' if dep[i] else 'out'
json.dump(raw,open('api.json','w'),indent=0)
print(sum(p['dir']=='out' for f in raw for p in f['params']),sum(p['dir']=='inout' for f in raw for p in f['params']))
for f in raw:
    d=[p['name']+':'+p['dir'] for p in f['params'] if p['kind']!='val' and p['dir']!='in' and p['name']!='dest']
    d+= [p['name']+':'+p['dir'] for p in f['params'] if p['name']=='dest' and p['dir']!='out']
    if d: print(f['name'][4:],d,end='; ')
    if not any(p['dir']!='in' for p in f['params']) and f['ret']=='void': print('!!NOOUT',f['name'])
