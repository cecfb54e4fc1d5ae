"""P10: conversion between native formats"""
from vc.core import Group, Job
from vc import spec as sp, terms as tm
from .fpadd import fpin

PRE = '#include "thls/tops/fp_flopoco_primitives.hpp"\n'


def conv(EX, FX, E, F, via='convert(R,X)'):
    back = E >= EX and F >= FX
    body = '''  const fp_flopoco<%d,%d> X(vw::ld<%d>(x)); fp_flopoco<%d,%d> R; %s; vw::st<%d>(r, R.bits);''' % (EX, FX, EX + FX + 3, E, F, via, E + F + 3)
    outs = [('r', E + F + 3)]
    if back:
        body += ' fp_flopoco<%d,%d> B; convert(B,R); vw::st<%d>(b, B.bits);' % (EX, FX, EX + FX + 3)
        outs.append(('b', EX + FX + 3))

    def post(I, O):
        x, r = sp.unpack(I['x'], EX, FX), sp.unpack(O['r'], E, F)
        ps = [('the result is the value rounded to nearest even, same kind and sign', sp.same_signed(r, sp.convert_spec(x, E, F)))]
        if back:
            ps.append(('widening is exact', sp.same_signed(r, sp.widen(x, E, F))))
            ps.append(('there and back is the original value', sp.same_signed(sp.unpack(O['b'], EX, FX), x)))
        return ps
    return Job('convert%s_%d_%d_%d_%d' % ('' if via == 'convert(R,X)' else '_ret' if '<' in via else '_fl', EX, FX, E, F), body, [fpin('x', EX, FX)], outs, post,
               desc='convert: fp_flopoco<%d,%d> -> fp_flopoco<%d,%d>' % (EX, FX, E, F))


def groups(tier):
    if tier == 'quick':
        fs = [(4, 3), (8, 23), (5, 10), (11, 52), (6, 9), (7, 4), (8, 10), (4, 12), (12, 32), (9, 8), (20, 20), (28, 5), (16, 60)]
    else:
        fs = [(E, F) for E in (2, 3, 4, 5, 6, 8, 9, 11, 12) for F in (1, 2, 3, 4, 7, 10, 11, 16, 23, 24, 31, 32, 52)] + [(15, 60)]
    cs = [(a, b, c, d) for a, b in fs for c, d in fs]
    for E in range(4, 13):
        for FX, F in ((23, 22), (10, 9), (16, 8), (12, 3), (30, 23), (9, 4)):
            cs.append((E, FX, E, F))
    cs += [(3, 5, 2, 2), (2, 5, 2, 1), (2, 3, 4, 1), (5, 61, 4, 60), (8, 63, 8, 62), (8, 64, 8, 30), (11, 52, 8, 51), (10, 70, 9, 33)]
    cs = sorted(set(cs))
    gs = []
    for i in range(0, len(cs), 12):
        js = []
        for k, c in enumerate(cs[i:i + 12]):
            via = 'convert(R,X)'
            if k % 6 == 1:
                via = 'R=thls::convert<%d,%d>(X,0)' % c[2:]
            if k % 6 == 4:
                via = 'flopoco_convert(R,X)'
            js.append(conv(*c, via=via))
        gs.append(Group('convert_%d' % i, PRE, js, weight=30))
    return gs
