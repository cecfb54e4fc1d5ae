"""P09: negation and widening"""
from vc.core import Group, Job
from vc import spec as sp, terms as tm
from .fpadd import fpin

PRE = '#include "thls/tops/fp_flopoco_primitives.hpp"\n'


def neg_same(E, F, fn):
    body = '''  fp_flopoco<%d,%d> X(vw::ld<%d>(x)); vw::st<%d>(r, %s<%d,%d>(X,0).bits); vw::st<%d>(rr, %s<%d,%d>(%s<%d,%d>(X,0),0).bits);''' % (
        (E, F, E + F + 3, E + F + 3, fn, E, F, E + F + 3) + (fn, E, F) * 2)

    def post(I, O):
        return [('only the sign is flipped', tm.eq(O['r'], tm.xor(I['x'], tm.const(1 << (E + F), E + F + 3)))),
                ('negating twice gives the original', tm.eq(O['rr'], I['x']))]
    return Job('%s_%d_%d' % (fn, E, F), body, [fpin('x', E, F)], [('r', E + F + 3), ('rr', E + F + 3)], post, desc='%s on fp_flopoco<%d,%d>' % (fn, E, F))


def neg_conv(EX, FX, E, F):
    body = '''  fp_flopoco<%d,%d> X(vw::ld<%d>(x)); vw::st<%d>(r, neg_v1<%d,%d>(X,0).bits);''' % (EX, FX, EX + FX + 3, E + F + 3, E, F)

    def post(I, O):
        x = sp.unpack(I['x'], EX, FX)
        m = sp.FP(EX, FX, x.flags, tm.not_(x.s), x.e, x.f)
        return [('the negated value, rounded to the result format', sp.same_signed(sp.unpack(O['r'], E, F), sp.convert_spec(m, E, F)))]
    return Job('neg_v1_%d_%d_%d_%d' % (EX, FX, E, F), body, [fpin('x', EX, FX)], [('r', E + F + 3)], post,
               desc='neg_v1: fp_flopoco<%d,%d> -> fp_flopoco<%d,%d>' % (EX, FX, E, F))


def prom(EX, FX, E, F):
    body = '''  fp_flopoco<%d,%d> X(vw::ld<%d>(x)); fp_flopoco<%d,%d> R; promote(R,X); vw::st<%d>(r, R.bits);''' % (EX, FX, EX + FX + 3, E, F, E + F + 3)

    def post(I, O):
        x = sp.unpack(I['x'], EX, FX)
        return [('value, kind and sign are kept', sp.same_signed(sp.unpack(O['r'], E, F), sp.widen(x, E, F)))]
    return Job('promote_%d_%d_%d_%d' % (EX, FX, E, F), body, [fpin('x', EX, FX)], [('r', E + F + 3)], post,
               desc='promote: fp_flopoco<%d,%d> -> fp_flopoco<%d,%d>' % (EX, FX, E, F))


def prom_ieee(EX, FX, E, F):
    """IEEE to IEEE widening: normals keep their value, zero, infinity and NaN stay"""
    body = '''  fp_ieee<%d,%d> X(vw::ld<%d>(x)); fp_ieee<%d,%d> R; promote(R,X); vw::st<%d>(r, R.bits);''' % (EX, FX, EX + FX + 1, E, F, E + F + 1)

    def post(I, O):
        x, r = sp.IEEE(I['x'], EX, FX), sp.IEEE(O['r'], E, F)
        db = sp.bias(E) - sp.bias(EX)
        f = tm.cat(x.f, tm.const(0, F - FX)) if F > FX else x.f
        return [('the sign is kept', tm.eq(r.s, x.s)),
                ('the value of a normal number is kept', tm.implies(x.norm, tm.andl(
                    r.norm, tm.eq(r.e, tm.add(tm.zext(x.e, E), tm.const(db, E))), tm.eq(r.f, f)))),
                ('zero stays zero', tm.implies(x.zero, r.zero)),
                ('infinity stays infinity', tm.implies(x.inf, r.inf)),
                ('a subnormal, read as zero, stays one', tm.implies(x.sub, tm.or_(r.zero, r.sub))),
                ('NaN stays NaN', tm.implies(x.nan, r.nan))]
    return Job('promote_ieee_%d_%d_%d_%d' % (EX, FX, E, F), body, [('x', EX + FX + 1, [('xs', 1), ('xe', EX), ('xf', FX)])], [('r', E + F + 1)], post,
               desc='promote: fp_ieee<%d,%d> -> fp_ieee<%d,%d>' % (EX, FX, E, F))


def prom_to_ieee(EX, FX, E, F):
    body = '''  fp_flopoco<%d,%d> X(vw::ld<%d>(x)); fp_ieee<%d,%d> R; promote(R,X); vw::st<%d>(r, R.bits);''' % (EX, FX, EX + FX + 3, E, F, E + F + 1)

    def post(I, O):
        x, r = sp.unpack(I['x'], EX, FX), sp.IEEE(O['r'], E, F)
        w = sp.widen(x, E, F)
        return [('the sign is kept', tm.eq(r.s, x.s)),
                ('the value of a normal number is kept', tm.implies(x.is_(1), tm.andl(r.norm, tm.eq(r.e, w.e), tm.eq(r.f, w.f)))),
                ('zero stays zero', tm.implies(x.is_(0), r.zero)),
                ('infinity stays infinity', tm.implies(x.is_(2), r.inf)),
                ('NaN stays NaN', tm.implies(x.is_(3), r.nan))]
    return Job('promote_to_ieee_%d_%d_%d_%d' % (EX, FX, E, F), body, [fpin('x', EX, FX)], [('r', E + F + 1)], post,
               desc='promote: fp_flopoco<%d,%d> -> fp_ieee<%d,%d>' % (EX, FX, E, F))


def prom_from_ieee(EX, FX, E, F):
    body = '''  fp_ieee<%d,%d> X(vw::ld<%d>(x)); fp_flopoco<%d,%d> R; promote(R,X); vw::st<%d>(r, R.bits);''' % (EX, FX, EX + FX + 1, E, F, E + F + 3)

    def post(I, O):
        x, r = sp.IEEE(I['x'], EX, FX), sp.unpack(O['r'], E, F)
        db = sp.bias(E) - sp.bias(EX)
        f = tm.cat(x.f, tm.const(0, F - FX)) if F > FX else x.f
        return [('the sign is kept', tm.eq(r.s, x.s)),
                ('the value of a normal number is kept', tm.implies(x.norm, tm.andl(
                    r.is_(1), tm.eq(r.e, tm.add(tm.zext(x.e, E), tm.const(db, E))), tm.eq(r.f, f)))),
                ('zero and subnormals become zero', tm.implies(tm.or_(x.zero, x.sub), r.is_(0))),
                ('infinity stays infinity', tm.implies(x.inf, r.is_(2))),
                ('NaN stays NaN', tm.implies(x.nan, r.is_(3)))]
    return Job('promote_from_ieee_%d_%d_%d_%d' % (EX, FX, E, F), body, [('x', EX + FX + 1, [('xs', 1), ('xe', EX), ('xf', FX)])], [('r', E + F + 3)], post,
               desc='promote: fp_ieee<%d,%d> -> fp_flopoco<%d,%d>' % (EX, FX, E, F))


WIDE = [(4, 3, 4, 3), (4, 3, 5, 3), (4, 3, 4, 4), (5, 10, 8, 23), (8, 23, 11, 52), (6, 9, 6, 20), (7, 12, 12, 12), (8, 23, 8, 32), (5, 2, 9, 31), (8, 16, 15, 60),
        (11, 52, 15, 64), (2, 3, 3, 5), (10, 20, 11, 21), (8, 24, 9, 24), (5, 10, 5, 11)]
CONV = [(8, 23, 5, 10), (5, 10, 8, 23), (8, 10, 8, 9), (6, 9, 4, 12), (4, 12, 6, 9), (11, 52, 8, 23), (7, 7, 7, 3), (5, 3, 4, 3)]


def groups(tier):
    gs = []
    fm = [(E, F) for F in range(3, 33) for E in ([4 + (F * 5) % 9] if tier == 'quick' else range(4, 13))] + [(8, 23), (11, 52), (15, 60), (20, 20), (28, 6), (2, 1), (3, 2)]
    fm = sorted(set(fm))
    for i in range(0, len(fm), 8):
        gs.append(Group('neg_%d' % i, PRE, [neg_same(E, F, fn) for E, F in fm[i:i + 8] for fn in ('neg_v1', 'neg')], weight=20))
    wide, conv = list(WIDE), list(CONV)
    if tier != 'quick':
        wide += [(E, F, E + de, F + df) for E in range(2, 13) for F in (1, 3, 7, 10, 16, 23, 30) for de, df in ((1, 0), (0, 1), (3, 5), (2, 29), (0, 32))]
        conv += [(EX, FX, E, F) for EX in (4, 7, 8, 11) for FX in (3, 10, 23) for E in (4, 6, 8, 12) for F in (3, 9, 23, 30)]
    wide, conv = sorted(set(wide)), sorted(set(conv))
    for i in range(0, len(conv), 8):
        gs.append(Group('negconv_%d' % i, PRE, [neg_conv(*c) for c in conv[i:i + 8]], weight=20))
    for i in range(0, len(wide), 8):
        w = wide[i:i + 8]
        gs.append(Group('promote_%d' % i, PRE, [prom(*c) for c in w] + [prom_ieee(*c) for c in w if c[0] > 2] + [prom_from_ieee(*c) for c in w if c[0] > 2]
                        + [prom_to_ieee(*c) for c in w if c[2] > c[0]], weight=20))
    return gs
