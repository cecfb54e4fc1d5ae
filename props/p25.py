"""P25: native doubles"""
from vc.core import Group, Job
from vc import spec as sp, terms as tm, ieee as ie, fpu
from .fpadd import fpin

ASSUMPTIONS = ['floating-point instructions and ldexp/frexp follow IEEE 754 round-to-nearest-even (vc/fpu.py, vc/ieee.py)', 'the mpfr-based constructors and getters are not covered']

PRE = '#include "thls/tops/fp_flopoco_primitives.hpp"\n'


def dbl(n):
    return (n, 64, [(n + 's', 1), (n + 'e', 11), (n + 'f', 52)])


def exact(d, E, F):
    """native number of format (E,F) equal to the finite non-zero double d, and whether there is one"""
    sig, ex = d.norm()
    we = max(E, ex.w) + 2
    e = tm.add(tm.sext(ex, we), tm.const(sp.bias(E), we))
    ok = tm.and_(tm.not_(tm.msb(e)), tm.ult(e, tm.const(1 << E, we)))
    f = tm.trunc(sig, 52)
    if F < 52:
        ok = tm.and_(ok, tm.eq(tm.ext(f, 51 - F, 0), tm.const(0, 52 - F)))
        f = tm.ext(f, 51, 52 - F)
    elif F > 52:
        f = tm.cat(f, tm.const(0, F - 52))
    return sp.FP(E, F, tm.const(1, 2), d.s, tm.trunc(e, E), f), ok


def of_native(x, want):
    """the double equal to native x, and whether there is one"""
    E, F = x.E, x.F
    m = ie.round_pack(x.s, tm.cat(tm.const(1, 1), x.f), tm.sub(tm.zext(x.e, E + 2), tm.const(sp.bias(E), E + 2)), 11, 52)
    return m


def from_double(E, F):
    w = E + F + 3
    body = '  double d; memcpy(&d,x,8); fp_flopoco<%d,%d> R(d); vw::st<%d>(r,R.bits);' % (E, F, w)

    def post(I, O):
        d, r = ie.U(I['x'], 11, 52), sp.unpack(O['r'], E, F)
        v, ok = exact(d, E, F)
        num = tm.andl(d.finite, tm.not_(d.zero))
        return [('NaN becomes NaN', tm.implies(d.nan, r.is_(3))),
                ('infinity becomes infinity of the same sign', tm.implies(d.inf, tm.and_(r.is_(2), tm.eq(r.s, d.s)))),
                ('zero becomes zero of the same sign', tm.implies(d.zero, tm.and_(r.is_(0), tm.eq(r.s, d.s)))),
                ('a representable value is kept exactly', tm.implies(tm.and_(num, ok), sp.same(r, v))),
                ('the sign is kept', tm.implies(num, tm.and_(tm.not_(r.is_(3)), tm.eq(r.s, d.s))))]
    return Job('from_double_%d_%d' % (E, F), body, [dbl('x')], [('r', w)], post, desc='fp_flopoco<%d,%d>(double)' % (E, F), models=fpu.models())


def to_double(E, F):
    w = E + F + 3
    body = '  fp_flopoco<%d,%d> X(vw::ld<%d>(x)); double d=X.to_double(); memcpy(r,&d,8); fp_flopoco<%d,%d> B(d); vw::st<%d>(b,B.bits);' % (E, F, w, E, F, w)

    def post(I, O):
        x, d, b = sp.unpack(I['x'], E, F), ie.U(O['r'], 11, 52), sp.unpack(O['b'], E, F)
        v, ok = exact(d, E, F)
        wide = E == 11
        fits = tm.true()
        if wide:
            # below the normal doubles the last fraction bit may not fit; above them nothing does
            fits = tm.andl(tm.ne(x.e, tm.const(2047, 11)), tm.or_(tm.ne(x.e, tm.const(0, 11)), tm.eq(tm.bit(x.f, 0), tm.const(0, 1)) if F == 52 else tm.true()))
        return [('NaN becomes NaN', tm.implies(x.is_(3), tm.and_(d.nan, b.is_(3)))),
                ('infinity becomes infinity of the same sign', tm.implies(x.is_(2), tm.and_(d.inf, tm.eq(d.s, x.s)))),
                ('zero becomes zero of the same sign', tm.implies(x.is_(0), tm.and_(d.zero, tm.eq(d.s, x.s)))),
                ('the value is kept exactly', tm.implies(tm.and_(x.is_(1), fits), tm.andl(d.finite, tm.not_(d.zero), ok, sp.same(x, v)))),
                ('there and back is the original number', tm.implies(tm.or_(tm.not_(x.is_(1)), fits), sp.same(b, x)))]
    return Job('to_double_%d_%d' % (E, F), body, [fpin('x', E, F)], [('r', 64), ('b', w)], post, desc='fp_flopoco<%d,%d>::to_double and back' % (E, F), models=fpu.models())


def groups(tier):
    gs = []
    fm = [(E, F) for F in (3, 8, 13, 18, 23, 28, 33, 38, 43, 48) for E in ([4 + (F * 5) % 8] if tier == 'quick' else range(4, 12))] + [(8, 23), (11, 52), (5, 10), (11, 20), (8, 52), (3, 2), (8, 31), (8, 32), (10, 51)]
    for E, F in sorted(set(fm)):
        gs.append(Group('double_%d_%d' % (E, F), PRE, [to_double(E, F), from_double(E, F)], weight=F))
    for E, F in [(12, 52), (15, 60), (15, 63), (8, 62), (12, 20), (15, 52), (15, 70), (9, 64)]:
        gs.append(Group('double_%d_%d' % (E, F), PRE, [from_double(E, F)], weight=F))
    return gs
