"""P18: one step of the LUT-optimised generator is linear with few taps; the shipped one is invertible"""
from functools import reduce
from vc.core import Group, Job
from vc import terms as tm

PRE = '#include "thls/tops/fp_flopoco_primitives.hpp"\n#include "thls/tops/lut_opt.hpp"\n'
SHIPPED = (16, 6, 1)        # the instance src/fp_ops/test_lut_opt.cpp uses


def job(N, T, S):
    L = 'lut_opt_spec<%d,%d,%d>' % (N, T, S)
    body = '  typedef %s L;\n  fw_uint<%d> X(vw::ld<%d>(x)), Y(vw::ld<%d>(y));\n' % (L, N, N, N)
    body += '  vw::st<%d>(sx, L::step(X)); vw::st<%d>(sy, L::step(Y)); vw::st<%d>(sxy, L::step(X^Y)); vw::st<%d>(z, L::step(fw_uint<%d>::from_uint64(0)));\n' % (N, N, N, N, N)
    body += ''.join('  vw::st<%d>(c%d, L::step(fw_uint<%d>::from_uint64(1ull<<%d)));\n' % (N, i, N, i) for i in range(N))

    def post(I, O):
        x, y = I['x'], I['y']
        z = tm.const(0, N)
        ps = [('zero steps to zero', tm.eq(O['z'], z)),
              ('the step of an exclusive-or is the exclusive-or of the steps', tm.eq(O['sxy'], tm.xor(O['sx'], O['sy']))),
              ('the step is the exclusive-or of the steps of the single bits', tm.eq(O['sx'], reduce(tm.xor, [tm.ite(tm.bit(x, i), O['c%d' % i], z) for i in range(N)])))]
        for r in range(N):
            n = reduce(tm.add, [tm.zext(tm.bit(O['c%d' % i], r), 8) for i in range(N)])
            ps.append(('output bit %d depends on at most %d state bits' % (r, T), tm.ule(n, tm.const(T, 8))))
        if (N, T, S) == SHIPPED:
            ps.append(('distinct states have distinct successors', tm.implies(tm.eq(O['sx'], O['sy']), tm.eq(x, y))))
        return ps
    return Job('step_%d_%d_%d' % (N, T, S), body, [('x', N), ('y', N)], [(n, N) for n in ['sx', 'sy', 'sxy', 'z'] + ['c%d' % i for i in range(N)]], post,
               desc='%s::step' % L)


def groups(tier):
    cf = [SHIPPED, (16, 3, 1), (8, 4, 5), (12, 3, 1), (24, 4, 5), (5, 2, 9), (2, 1, 3), (3, 3, 12345)]
    if tier != 'quick':
        cf += [(32, 5, 1), (32, 3, 7), (40, 4, 1)] + [(n, t, s) for n in (4, 7, 10, 13, 16) for t in (1, 2, 3, 5) for s in (1, 99, 4000000000)]
    gs = [Group('n%d_%d_%d' % c, PRE, [job(*c)], cflags=['-ftemplate-depth=100000'], weight=c[0] ** 2) for c in cf]
    return gs
