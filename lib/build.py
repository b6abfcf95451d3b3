"""Builds the implementation under test: one shared object per configuration x API surface,
generated from the committed API snapshot (api.json) and /repo's current working tree."""
import json, os, re, subprocess, sys, hashlib, shutil, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('CGLM_REPO', '/repo')
API = json.load(open(os.path.join(HERE, 'api.json')))
def adapters():
    # functions over caller arrays or streams, called through fixed-shape adapters: name, parameters, body per surface
    def p(n, ct, w, d='in', arr=0): return dict(name=n, kind='ptr', ctype=ct, base='i' if ct[0] == 'i' else 'f', n=w, dir=d, **({'arr': arr} if arr else {}))
    o = []
    def add(name, params, **body): o.append(dict(name=name, ret='void', params=params, header='adapter.h', custom=body, **({'call': 'glmc_' + name[4:]} if 'call' in body else {})))
    for k in (2, 3, 5):
        ms = [p('m%d' % i, 'mat4', 16) for i in range(1, k + 1)]; ls = ', '.join('(mat4 *)m%d_' % i for i in range(1, k + 1))
        add('glm_mat4_mulN_%d' % k, ms + [p('dest', 'mat4', 16, 'out')], inline='mat4 *l[] = {%s}; glm_mat4_mulN(l, %d, *(mat4 *)dest_);' % (ls, k), call='mat4 *l[] = {%s}; glmc_mat4_mulN(l, %d, *(mat4 *)dest_);' % (ls, k),
            struct='mat4s *l[] = {%s}; mat4s r = glms_mat4_mulN(l, %d); memcpy(dest_, &r, 64);' % (ls.replace('mat4 *', 'mat4s *'), k))
    for t, w, fn in (('mat2', 4, 'mat2'), ('mat3', 9, 'mat3'), ('mat4', 16, 'mat4'), ('versor', 4, 'quat')):
        add('glm_%s_identity_array_2' % fn, [p('dest', t, 2 * w, 'out', 2)], inline='glm_%s_identity_array((%s *)dest_, 2);' % (fn, t), call='glmc_%s_identity_array((%s *)dest_, 2);' % (fn, t))
    for t, w in (('ivec2', 2), ('ivec3', 3), ('ivec4', 4), ('vec2', 2), ('vec3', 3), ('vec4', 4), ('versor', 4), ('mat2', 4), ('mat3', 9), ('mat4', 16)):
        add('glm_%s_print' % t, [p('value', t, w), p('text', 'int', 40, 'out', 40)], inline='memset(text_, 0, 160); FILE *s = fmemopen(text_, 160, "w"); glm_%s_print(*(%s *)value_, s); fclose(s);' % (t, t))
    return o
API += adapters()
BYNAME = {f['name']: f for f in API}

INCLUDES = '''
#include <cglm/cglm.h>
%s
#include <cglm/handed/euler_to_quat_lh.h>
#include <cglm/handed/euler_to_quat_rh.h>
#include <cglm/struct.h>
#include <cglm/struct/aabb2d.h>
#include <cglm/struct/handed/euler_to_quat_lh.h>
#include <cglm/struct/handed/euler_to_quat_rh.h>
#include <cglm/call.h>
%s
#include <string.h>
'''
CLIP = ['ortho_lh_no','ortho_lh_zo','ortho_rh_no','ortho_rh_zo','persp_lh_no','persp_lh_zo','persp_rh_no','persp_rh_zo',
        'project_no','project_zo','view_lh_no','view_lh_zo','view_rh_no','view_rh_zo']
def includes():
    return INCLUDES % (''.join('#include <cglm/clipspace/%s.h>\n' % c for c in CLIP),
                       ''.join('#include <cglm/struct/clipspace/%s.h>\n#include <cglm/call/clipspace/%s.h>\n' % (c, c) for c in CLIP))

# ---- configurations: name -> (compiler, flags, needed cpu flags) ---------------------------
B = ['-std=gnu11', '-O2']
CONFIGS = {
  'sse2':      ('gcc',   B, []),
  'scalar':    ('gcc',   B + ['-ffp-contract=off', '-DCGLMV_SCALAR'], []),
  'sse3':      ('gcc',   B + ['-msse3', '-DCGLM_SSE3_DOT'], ['pni']),
  'sse41':     ('gcc',   B + ['-msse4.1', '-DCGLM_SSE4_DOT'], ['sse4_1']),
  'avx':       ('gcc',   B + ['-mavx'], ['avx']),
  'avx2fma':   ('gcc',   B + ['-O3', '-mavx2', '-mfma'], ['avx2', 'fma']),
  'clang_avx2':('clang', B + ['-O3', '-mavx2', '-mfma'], ['avx2', 'fma']),
  'nointdom':  ('gcc',   B + ['-DCGLM_NO_INT_DOMAIN'], []),
  'unaligned': ('gcc',   B + ['-DCGLM_ALL_UNALIGNED'], []),
  'unal_avx':  ('gcc',   B + ['-DCGLM_ALL_UNALIGNED', '-mavx2', '-mfma'], ['avx2', 'fma']),
  'gcc_O0':    ('gcc',   ['-std=gnu11', '-O0'], []),
  'gcc_O3':    ('gcc',   ['-std=gnu11', '-O3', '-DNDEBUG'], []),
  'clang':     ('clang', B, []),
  'lh_no':     ('gcc',   B + ['-DCGLM_FORCE_LEFT_HANDED'], []),
  'rh_zo':     ('gcc',   B + ['-DCGLM_FORCE_DEPTH_ZERO_TO_ONE'], []),
  'lh_zo':     ('gcc',   B + ['-DCGLM_FORCE_LEFT_HANDED', '-DCGLM_FORCE_DEPTH_ZERO_TO_ONE'], []),
  'lh_no_avx': ('gcc',   B + ['-mavx', '-DCGLM_FORCE_LEFT_HANDED'], ['avx']),
  'rh_zo_scal':('gcc',   B + ['-ffp-contract=off', '-DCGLMV_SCALAR', '-DCGLM_FORCE_DEPTH_ZERO_TO_ONE'], []),
  'lh_no_scal':('gcc',   B + ['-ffp-contract=off', '-DCGLMV_SCALAR', '-DCGLM_FORCE_LEFT_HANDED'], []),
  'lh_zo_scal':('gcc',   B + ['-ffp-contract=off', '-DCGLMV_SCALAR', '-DCGLM_FORCE_LEFT_HANDED', '-DCGLM_FORCE_DEPTH_ZERO_TO_ONE'], []),
  'clipall':   ('gcc',   B + ['-DCGLM_CLIPSPACE_INCLUDE_ALL'], []),
  'neon32':    ('gcc',   B + ['-fno-lax-vector-conversions', '-DCGLMV_NEON32', '-I', os.path.join(HERE, 'emu')], []),
  'neon64':    ('gcc',   B + ['-DCGLMV_NEON64', '-I', os.path.join(HERE, 'emu')], []),
  'wasm':      ('gcc',   B + ['-DCGLMV_WASM', '-I', os.path.join(HERE, 'emu')], []),
}
TS = ['-fsanitize=thread', '-mllvm', '-tsan-instrument-func-entry-exit=0']
EXTRA = {
  'customclip': ('gcc', B + ['-include', os.path.join(HERE, 'customclip.h')], []),  # C24: user-supplied clip space corners   # instrumented builds for the schedule exploration
  'ts_sse2':   ('clang', ['-std=gnu11', '-O1'] + TS, []),
  'ts_scalar': ('clang', ['-std=gnu11', '-O1', '-ffp-contract=off', '-DCGLMV_SCALAR'] + TS, []),
  'ts_lh_zo':  ('clang', ['-std=gnu11', '-O1', '-DCGLM_FORCE_LEFT_HANDED', '-DCGLM_FORCE_DEPTH_ZERO_TO_ONE'] + TS, []),
}
EMULATED = ('neon32', 'neon64', 'wasm')
CPU = set()
try:
    for l in open('/proc/cpuinfo'):
        if l.startswith('flags'): CPU = set(l.split(':')[1].split()); break
except OSError: pass
def config(cfg): return CONFIGS.get(cfg) or EXTRA[cfg]
def runnable(cfg): return all(f in CPU for f in config(cfg)[2])

PRE = '''
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <stdio.h>
#include <math.h>
#include <float.h>
#include <stdbool.h>
#include <string.h>
#if defined(CGLMV_SCALAR) || defined(CGLMV_NEON32) || defined(CGLMV_NEON64) || defined(CGLMV_WASM)
#  include "emu/undef_x86.h"
#endif
'''
def cdecl(p):
    if p['kind'] == 'val':
        return ('int' if p['ctype'] in ('int', 'glm_euler_seq') else 'float') + ' ' + p['name'] + '_'
    return ('float' if p['base'] == 'f' else 'int') + ' *' + p['name'] + '_'
def cret(f): return 'int' if f['ret'] == 'glm_euler_seq' else f['ret']
def cast(p):
    n = p['name'] + '_'
    if p['kind'] == 'val': return '(glm_euler_seq)' + n if p['ctype'] == 'glm_euler_seq' else n
    if p.get('raw') or p['ctype'] in ('float', 'int'): return n
    if p.get('arr'): return '(%s*)%s' % (p['ctype'], n)
    return '*(%s*)%s' % (p['ctype'], n)
SINC = {'vec2s': 2, 'vec3s': 3, 'vec4s': 4, 'versors': 4, 'mat2s': 4, 'mat3s': 9, 'mat4s': 16, 'mat2x3s': 6, 'mat2x4s': 8, 'mat3x2s': 6,
        'mat3x4s': 12, 'mat4x2s': 8, 'mat4x3s': 12, 'ivec2s': 2, 'ivec3s': 3, 'ivec4s': 4}
def struct_body(f):
    """C statements calling glms_X with glm_X's arguments; None if it cannot be mapped."""
    gp = f['params']; pre = []; args = []; post = []; i = 0; used = set(); byval = {}
    for (t, n, dim) in f['sparams']:
        t = t.replace('const ', '').strip(); ptr = False
        if t.endswith('*') and t[:-1].strip() in SINC: t = t[:-1].strip(); ptr = True
        def fits(k):
            p = gp[k]
            if k in used: return False
            if f['name'] == 'glm_vec2' and k == 0: return True
            if t in SINC and not dim:
                return p['kind'] == 'ptr' and p['n'] == SINC[t] and (p['base'] == 'i') == t.startswith('ivec') and not (p.get('arr') and p['ctype'] not in ('float', 'int'))
            if t in SINC: return p['kind'] == 'ptr' and p['n'] == SINC[t] * int(dim.strip('[]') or p['n'] // SINC[t])
            if t in ('float*', 'int*') or (t in ('float', 'int') and dim): return p['kind'] == 'ptr' and p['base'] == t[0]
            return p['kind'] == 'val' and (p['base'] == ('i' if t in ('int', 'glm_euler_seq', '_Bool') else 'f'))
        k = next((k for k in list(range(i, len(gp))) + list(range(i)) if fits(k)), None)
        if k is None: return None
        p = gp[k]; i = k + 1; used.add(k)
        if t in SINC and (ptr or dim): args.append('(%s *)%s_' % (t, p['name']))
        elif t in SINC:
            pre.append('%s s%d = {0}; memcpy(&s%d, %s_, %d);' % (t, k, k, p['name'], 4 * p['n'])); args.append('s%d' % k); byval[k] = t
        else: args.append(cast(p))
    outs = [k for k, p in enumerate(gp) if p['dir'] != 'in']
    call = '%s(%s)' % (f['struct'], ', '.join(args))
    sret = f['sret']; pre = ' '.join(pre); post = ' '.join(post)
    if sret in SINC:
        un = [k for k in outs if k not in used] or [k for k in outs if k in byval]
        if len(un) != 1 or gp[un[0]]['n'] != SINC[sret] and not (gp[un[0]]['ctype'] == 'vec4' and sret == 'vec3s'): return None
        if [k for k in outs if k not in used and k not in un] or f['ret'] != 'void': return None
        return '  %s %s rv__ = %s; memcpy(%s_, &rv__, %d); %s' % (pre, sret, call, gp[un[0]]['name'], 4 * SINC[sret], post)
    if any(k not in used for k in range(len(gp))): return None
    if [k for k in outs if k in byval]: return None
    if sret.replace('_Bool', 'bool') != f['ret']: return None
    if sret == 'void': return '  %s %s; %s' % (pre, call, post)
    return '  %s %s rv__ = %s; %s return rv__;' % (pre, cret(f), call, post)

def shim_source(surface, names=None):
    o = [PRE, includes()]
    if surface == 'call':
        pass
    for f in API:
        if names is not None and f['name'] not in names: continue
        sig = '%s S_%s(%s)' % (cret(f), f['name'], ', '.join(cdecl(p) for p in f['params']) or 'void')
        body = None
        if 'custom' in f:
            body = f['custom'].get(surface)
            if body is None: continue
        elif surface == 'struct' and 'struct' in f: body = struct_body(f)
        if body is None and surface == 'struct': continue
        if surface == 'call' and 'call' not in f: continue
        if body is None:
            c = f['call'] if surface == 'call' else f['name']
            body = '  %s%s(%s);' % ('' if f['ret'] == 'void' else 'return ', c, ', '.join(cast(p) for p in f['params']))
        o.append('static __attribute__((noinline)) %s {\n%s\n}' % (sig, body))
    have = set()
    txt = '\n'.join(o)
    for f in API:
        if ' S_%s(' % f['name'] in txt: have.add(f['name'])
    o.append('const void * const cglm_tab[] __attribute__((visibility("default"))) = {')
    for f in API: o.append('  (const void*)S_%s,' % f['name'] if f['name'] in have else '  0,')
    o.append('};')
    # generic thunks
    for f in API:
        if f['name'] not in have: continue
        a = []
        for i, p in enumerate(f['params']):
            t = 'float' if p['base'] == 'f' else 'int'
            a.append(('*(%s*)a[%d]' if p['kind'] == 'val' else '(%s*)a[%d]') % (t, i))
        call = 'S_%s(%s)' % (f['name'], ', '.join(a))
        n = len(f['params'])
        if f['ret'] == 'void': st = call
        elif f['ret'] == 'float': st = '*(float*)a[%d] = %s' % (n, call)
        else: st = '*(int*)a[%d] = %s' % (n, call)
        o.append('static void G_%s(void **a) { (void)a; %s; }' % (f['name'], st))
    o.append('typedef void (*gfn)(void**);\nconst gfn cglm_gen[] __attribute__((visibility("default"))) = {')
    for f in API: o.append('  G_%s,' % f['name'] if f['name'] in have else '  0,')
    o.append('};')
    return '\n'.join(o) + '\n'

def api_header():
    o = ['#pragma once', '// generated from api.json', '#include <cstddef>', 'struct Api {']
    for f in API:
        o.append('  %s (*%s)(%s);' % (cret(f), f['name'], ', '.join(cdecl(p).replace('_', '', 0) for p in f['params'])))
    o.append('};')
    o.append('struct GParam { const char *name; char kind; char base; int n; char dir; char arr; const char *ctype; };')
    o.append('struct GFunc { const char *name; const char *header; int np; char ret; GParam p[12]; };')
    o.append('static const GFunc GFUNCS[] = {')
    for f in API:
        ps = ', '.join('{"%s", \'%s\', \'%s\', %d, \'%s\', %d, "%s"}' % (p['name'], p['kind'][0], p['base'], p['n'], {'in': 'i', 'out': 'o', 'inout': 'b'}[p['dir']], p.get('arr', 0), p['ctype']) for p in f['params'])
        o.append('  {"%s", "%s", %d, \'%s\', {%s}},' % (f['name'], f['header'], len(f['params']), {'void': 'v', 'float': 'f', 'int': 'i', 'bool': 'b', 'glm_euler_seq': 'i'}[f['ret']], ps))
    o.append('};\nstatic const int NGFUNCS = %d;' % len(API))
    return '\n'.join(o) + '\n'

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', **kw)

import threading
LOCK = threading.Lock()
class Builder:
    def __init__(self, work, names=None):
        self.work = work; self.names = names
        os.makedirs(work, exist_ok=True)
        with open(os.path.join(work, 'api.hpp'), 'w') as h: h.write(api_header())
    def src(self, surface):
        with LOCK:
            p = os.path.join(self.work, 'shim_%s.c' % surface)
            if not os.path.exists(p):
                with open(p, 'w') as h: h.write(shim_source(surface, self.names))
            return p
    def so(self, cfg, surface='inline', extra=(), tag=''):
        """returns (path, None) or (None, error)"""
        cc, flags, _ = config(cfg)
        out = os.path.join(self.work, '%s_%s%s.so' % (cfg, surface, tag))
        inc = ['-I', os.path.join(REPO, 'include'), '-I', HERE, '-w', '-fPIC', '-fvisibility=hidden']
        objs = []
        jobs = [(self.src(surface), out + '.shim.o', [])]
        if surface == 'call':
            srcs = []
            for d, _, fs in os.walk(os.path.join(REPO, 'src')):
                srcs += [os.path.join(d, x) for x in sorted(fs) if x.endswith('.c')]
            u = os.path.join(self.work, 'unity.c')
            with open(u + '.%s' % cfg, 'w') as h: h.write(PRE + ''.join('#include "%s"\n' % s for s in sorted(srcs)))
            os.replace(u + '.%s' % cfg, os.path.join(self.work, 'unity_%s.c' % cfg))
            jobs.append((os.path.join(self.work, 'unity_%s.c' % cfg), out + '.lib.o', []))
        for s, o, ex in jobs:
            r = run([cc] + flags + inc + list(extra) + ex + ['-c', s, '-o', o])
            if r.returncode: return None, r.stderr[-3000:]
            objs.append(o)
        r = run([cc, '-shared', '-o', out] + objs + ['-lm'])
        if r.returncode: return None, r.stderr[-3000:]
        for o in objs: os.unlink(o)
        return out, None
