"""Per-property check specifications: driver, builds explored per tier, stated bounds."""
ASSUME = ['x86-64 host executes SSE/AVX/FMA builds natively; NEON and WebAssembly builds run on stand-in intrinsic headers written from the ISA references (lib/emu)',
          'the reference model is evaluated in IEEE double precision; comparisons allow rounding proportional to the magnitude of the summed terms',
          'values outside the enumerated alphabets are not covered']
I = 'inline'
CORE = [('sse2', I), ('scalar', I), ('sse41', I), ('avx2fma', I), ('clang_avx2', I), ('avx', I), ('neon64', I), ('neon32', I), ('wasm', I), ('unal_avx', I), ('sse2', 'call'), ('sse2', 'struct')]
GEN = [('sse2', I), ('scalar', I), ('avx2fma', I), ('clang_avx2', I), ('sse2', 'call'), ('sse2', 'struct')]
CLIP = GEN + [('lh_no', I), ('rh_zo', I), ('lh_zo', I), ('lh_no', 'call'), ('rh_zo', 'struct'), ('neon64', I)]
def full():
    import build as B
    return [(c, s) for c in B.CONFIGS for s in (('inline', 'call', 'struct') if c not in B.EMULATED else ('inline',))]
def pairs(spec, tier):
    if tier == 'thorough': return full() + spec.get('more', [])
    return spec.get('builds', CORE)
PROPS = {}
def D(pid, driver, bounds, builds=CORE): PROPS[pid] = {'driver': driver, 'bounds': bounds, 'builds': builds}
D('C06', 'c06.cpp', 'every pair of a 49-value scalar alphabet (zeros, units, thresholds, denormal, extreme, infinite and NaN values) in every lane; every triple of a 21-value alphabet for accumulating operations; 15x15x19 (from,to,t) and 15x15x34 (edge,edge,x) grids for interpolation')
D('C07', 'c07.cpp', 'every vector over a 6..9-value alphabet plus 18 magnitudes x {-1,0,1}^n; every ordered pair of 80..290 vectors; refraction: all unit-vector pairs x 9 ratios; rotation: 30 axes x 65 angles x 64 vectors; 32x32x32 column triples for matrix rotation')
D('C08', 'c08.cpp', 'every vector that differs from a base in at most two components over a 20-value alphabet with the tolerance boundary; all products of a 13-value alphabet for reductions; every valid component-selection mask')
D('C09', 'c09.cpp', 'every pair of a 32-value integer alphabet including the extremes in all components at once and in each component alone (results that would overflow are excluded as undefined); every triple of it in each component for accumulating operations', GEN)
D('C31', 'c31.cpp', 'every pair of ~240 floats, every triple of 25 floats, 120 x 7 values around the comparison tolerance, ~190 integers (thorough: all 2^32 for sign)', GEN)
D('C10', 'c10.cpp', 'every ordered pair of matrices from {all single-entry matrices x 2 values, 8 structured, 60 dense} (decides every coefficient of the bilinear product); every vector over a 4..6-value alphabet per matrix; inverses of every signed permutation, every two-entry perturbation of the identity, all matrices over {-1,0,1} (3x3, affine 4x4), 300 dense; all triples of 14 well-conditioned matrices for the laws')
D('C11', 'c11.cpp', 'every ordered pair of {single-entry x 2 values, 8 structured, 60 dense} matrices of every shape; every vector over a 4..6-value alphabet', GEN)
D('C12', 'c12.cpp', 'about 250 matrices per size with distinct entries and special values; every pair of row and column indices')
D('C13', 'c13.cpp', 'every quaternion over a 5-value alphabet, 32 axes x 25 angles, scales 1e-12..1e6; every ordered pair of ~640; every triple of ~40 unit quaternions; 32 axes x 3 scales x 68 angles; the binary octahedral group explored to closure')
D('C14', 'c14.cpp', '~3000 quaternions of any norm; 92 axes x 221 angles including every branch boundary of the matrix-to-quaternion conversion; every pair of ~110 unit vectors plus near-parallel and near-opposite pairs around the thresholds')
D('C15', 'c15.cpp', 'every pair of ~110 unit quaternions, every sign pattern against every other (64 x 64), 44 x 80 near-identical/near-opposite pairs, x 12 parameters in [0,1] (and 4 outside for lerp); 33-step paths')
D('C16', 'c16.cpp', 'all six orders x 35^3 angle triples (thorough 59^3) forward; 59^3 rotations and every pole for extraction; 47 x 23 x 47 angle triples recovered', CLIP)
D('C17', 'c17.cpp', 'every transform from 64+ matrices x 135 parameter points, in place and to a destination; every sequence of 21 transforms up to depth 3 (thorough 4) from 4 start states; 9 pivots x 12 angles x 12 axes around points; 65 angles x 26+ axes for spinning')
D('C18', 'c18.cpp', 'every pair of ~100 affine matrices (all single-entry, dense); 440 rotations x 64 translations; 80 rotations x 216 scales x 8 mirrorings')
D('C19', 'c19.cpp', 'every transform from 130 matrices x 96 parameter points; every sequence of 12 transforms up to depth 4 (thorough 5)')
D('C20', 'c20.cpp', '15 x 15 extents x ~100 near/far pairs (frustum, ortho), every ordered pair of 15 bounds in x against 14 others in y, 13 x 10 x ~100 (perspective), 2744 boxes x 8 paddings, in all four clip spaces and the configured one', CLIP)
D('C21', 'c21.cpp', '6 x 5 extents x 20 near/far pairs and 6 x 4 x 12 symmetric projections x 5 edits, in all clip spaces; every sequence of 4 edits out of 4', CLIP)
D('C22', 'c22.cpp', '69 eyes x 71 directions x 11 up vectors, 125 eyes x 11 targets x 10 up vectors, in all clip-space variants and the configured one', CLIP)
D('C23', 'c23.cpp', '76 cameras (points in front of and behind the eye, homogeneous scales 4e-5 to 3e4 and negated) x 125 points x 9 viewports; 53 x 139 window points x 9; 30 x 64 pick regions x 9', CLIP)
D('C24', 'c24.cpp', '144 cameras (both hands, off-centre, orthographic) x 125 points x 6 planes; corner, box and split enumerations', GEN + [('lh_no', I), ('neon64', I), ('neon32', I), ('wasm', I), ('customclip', I), ('customclip', 'struct')])
PROPS['C24']['more'] = [('customclip', I), ('customclip', 'struct')]
D('C25', 'c25.cpp', 'all boxes over 8 intervals per axis: 103 x 216 pairs, 512 boxes x 343 points and every one-step neighbour of a face, 512 x 512 x 6 spheres at four scales, balls and boxes of very different sizes, 103 boxes x ~110 matrices, 108 boxes x 256 planes x 6 slots', GEN)
D('C26', 'c26.cpp', 'all boxes over 8 intervals per axis: all pairs, all boxes x 49 points and one-step neighbours of the sides, x 64 x 6 circles, x ~100 matrices', GEN)
D('C27', 'c27.cpp', '625 x 320 sphere pairs, ~100 matrices x 320 spheres', GEN + [('neon64', I), ('wasm', I)])
D('C28', 'c28.cpp', '11 triangles x 64 origins x 136 directions, scaled, in symmetric and displaced images (48 x 7), every quarter point of right triangles with borders; 64 origins x 63 directions x 27 centers x 4 radii at several scales and in symmetric images; exact tangents', GEN)
D('C29', 'c29.cpp', '5700 control polygons x 36 parameters; ~110 matrices x 81 vectors x 5 parameters; 49 monotone curves x 5 ranges x 71 values inverted', GEN + [('neon64', I), ('wasm', I)])
D('C30', 'c30.cpp', 'all 31 functions at 8193 equidistant parameters (thorough 524289), six steps around every branch boundary and every decade towards 0 and 1', GEN)
D('C32', 'c32.cpp', '61 x 61 cells x 16 positions (2D), 13^3 cells x 35 (3D), 7^4 cells x 20 (4D), cells around the period +-289, both sides of cell borders', GEN)
RELATED = { # sites of other drivers that the statement of a property also covers
 'C08': [('c06.cpp', ['vec2_sign', 'vec3_sign', 'vec4_sign'])],
 'C10': [('c12.cpp', ['mat2_struct', 'mat3_struct', 'mat4_struct'])],
 'C12': [('c11.cpp', ['mat%s_rest' % m for m in ('2x3', '2x4', '3x2', '3x4', '4x2', '4x3')]), ('c06.cpp', ['convert', 'vec4_ucopy', 'vec3_broadcast', 'vec4_broadcast'] + ['vec%d_%s' % (n, o) for n in (2, 3, 4) for o in ('copy', 'make', 'inplace')]), ('c13.cpp', ['unary'])],
 'C13': [('c14.cpp', ['rotate_matrix', 'from_vecs'])],
 'C14': [('c13.cpp', ['rotatev'])],
 'C17': [('c14.cpp', ['rotate_matrix']), ('c18.cpp', ['mul'])],
 'C22': [('c14.cpp', ['look'])],
 'C24': [('c25.cpp', ['frustum'])],
 'C25': [('c24.cpp', ['box_sets'])],
}
def related(prop): return [dict(driver=d, sites=s, bounds='', builds=PROPS[prop].get('builds', CORE)) for d, s in RELATED.get(prop, [])]
import generic as _g
for _p in ('C01', 'C02', 'C03', 'C04', 'C05'): PROPS[_p] = {'module': 'generic', 'bounds': _g.BOUNDS[_p]}
PROPS['C33'] = {'module': 'c33', 'bounds': 'all 12 printable kinds: every position with every value of a 29-value alphabet over 4 backgrounds, every pair of positions; every pair of integers; 12 build variants (interfaces, precision, release builds)'}
PROPS['C34'] = {'module': 'c34', 'bounds': 'every 4-tuple of a 23-value alphabet for one-argument helpers and all 256 shuffles, every pair of 625 vectors for dot, every pair in every lane for two-argument and every triple of 16 values for fused helpers; 18 instruction-set builds'}
PROPS['C35'] = {'module': 'c35', 'bounds': 'every documented configuration macro alone and in pairs x C and C++ (9 compiler/standard combinations) x entry headers in every order; every struct function under 6 naming configurations; every exported function; all types, constants, initializers and macro aliases in each configuration'}
