import os, glob
import mini as M, build as B
SRC = os.path.join(M.HERE, 'drivers', 'c33.c')
def variants():
    R = B.REPO; inc = ['-I', R + '/include']; base = ['gcc', '-std=gnu11', '-w', '-O1']; lib = [R + '/src/io.c']
    V = M.Variant
    return [V('inline', base + inc + [SRC]), V('inline-scalar', base + ['-DCGLM_NO_SIMD'] + inc + [SRC]), V('inline-avx', base + ['-mavx', '-mfma'] + inc + [SRC], runnable=B.runnable('avx')), V('struct', base + ['-DSURF=1'] + inc + [SRC]),
            V('library', base + ['-DSURF=2'] + inc + [SRC] + lib), V('library-ndebug', base + ['-DSURF=2', '-DNDEBUG'] + inc + [SRC] + lib), V('ndebug', base + ['-DNDEBUG', '-DEXPECT_NOOP'] + inc + [SRC]),
            V('struct-ndebug', base + ['-DSURF=1', '-DNDEBUG', '-DEXPECT_NOOP'] + inc + [SRC]), V('ndebug-define-prints', base + ['-DNDEBUG', '-DCGLM_DEFINE_PRINTS'] + inc + [SRC]), V('precision2', base + ['-DCGLM_PRINT_PRECISION=2'] + inc + [SRC]),
            V('precision9', base + ['-DCGLM_PRINT_PRECISION=9'] + inc + [SRC]), V('nocolor', base + ['-DGLM_TESTS_NO_COLORFUL_OUTPUT'] + inc + [SRC])]
BOUNDS = 'all 12 printable kinds: every position with every value of a 29-value alphabet over 4 backgrounds, every pair of positions with every (or every third) second value over 2 backgrounds; every pair of integers; 12 build variants'
def check(prop, spec, tier, seed):
    with M.Work() as w: st, per, samples, viol, notes = M.run_variants(variants(), w)
    return M.cov(st, per, samples, BOUNDS, 'states: (variant, object) pairs printed; transitions: print calls; traces_validated_against_impl: objects and elements parsed back from the output and compared'), viol, ['the C library formats numbers correctly'], notes
def replay(v):
    with M.Work() as w: st, per, samples, viol, notes = M.run_variants([x for x in variants() if x.name == v['cfg']], w)
    for x in viol: print(x['detail'])
    return 1 if viol else 0
