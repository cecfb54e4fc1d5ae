"""P11: IEEE encodings to and from the native format, kind predicates"""
from vc.core import Group, Job
from vc import spec as sp, terms as tm
from .fpadd import fpin

PRE = '#include "thls/tops/fp_flopoco_primitives.hpp"\n#include "thls/tops/fp_promote.hpp"\n'


def iein(n, E, F):
    return (n, E + F + 1, [(n + 's', 1), (n + 'e', E), (n + 'f', F)])


def from_ieee(E, F, via):
    body = '''  fp_ieee<%d,%d> X(vw::ld<%d>(x)); fp_flopoco<%d,%d> R; %s(R,X); vw::st<%d>(r, R.bits);
  fp_ieee<%d,%d> B; convert(B,R); vw::st<%d>(b, B.bits);''' % (E, F, E + F + 1, E, F, via, E + F + 3, E, F, E + F + 1)

    def post(I, O):
        x, r, b = sp.IEEE(I['x'], E, F), sp.unpack(O['r'], E, F), sp.IEEE(O['b'], E, F)
        return [('the sign is kept', tm.eq(r.s, x.s)),
                ('a normal number keeps its exact value', tm.implies(x.norm, tm.andl(r.is_(1), tm.eq(r.e, x.e), tm.eq(r.f, x.f)))),
                ('zero and subnormals become zero', tm.implies(tm.or_(x.zero, x.sub), r.is_(0))),
                ('infinity stays infinity', tm.implies(x.inf, r.is_(2))),
                ('NaN stays NaN', tm.implies(x.nan, r.is_(3))),
                ('there and back is bit-identical for zero, normal and infinity', tm.implies(tm.orl(x.zero, x.norm, x.inf), tm.eq(b.x, x.x))),
                ('there and back flushes subnormals to signed zero', tm.implies(x.sub, tm.and_(b.zero, tm.eq(b.s, x.s)))),
                ('there and back keeps NaN', tm.implies(x.nan, b.nan))]
    return Job('%s_from_ieee_%d_%d' % (via, E, F), body, [iein('x', E, F)], [('r', E + F + 3), ('b', E + F + 1)], post,
               desc='%s: fp_ieee<%d,%d> -> fp_flopoco and back' % (via, E, F))


def to_ieee(E, F):
    body = '''  fp_flopoco<%d,%d> X(vw::ld<%d>(x)); fp_ieee<%d,%d> R; convert(R,X); vw::st<%d>(r, R.bits);''' % (E, F, E + F + 3, E, F, E + F + 1)

    def post(I, O):
        x, r = sp.unpack(I['x'], E, F), sp.IEEE(O['r'], E, F)
        lo, hi = tm.eq(x.e, tm.const(0, E)), tm.eq(x.e, tm.const((1 << E) - 1, E))
        n = x.is_(1)
        return [('the sign is kept', tm.or_(x.is_(3), tm.eq(r.s, x.s))),
                ('a normal number with an IEEE counterpart is kept exactly', tm.implies(tm.andl(n, tm.not_(lo), tm.not_(hi)), tm.and_(
                    tm.eq(r.e, x.e), tm.eq(r.f, x.f)))),
                ('a number below the IEEE normals becomes zero', tm.implies(tm.and_(n, lo), r.zero)),
                ('a number above the IEEE range becomes infinity', tm.implies(tm.and_(n, hi), r.inf)),
                ('zero stays zero', tm.implies(x.is_(0), r.zero)),
                ('infinity stays infinity', tm.implies(x.is_(2), r.inf)),
                ('NaN stays NaN', tm.implies(x.is_(3), r.nan))]
    return Job('to_ieee_%d_%d' % (E, F), body, [fpin('x', E, F)], [('r', E + F + 1)], post, desc='convert: fp_flopoco<%d,%d> -> fp_ieee' % (E, F))


PRED = ['is_zero', 'is_normal', 'is_inf', 'is_nan', 'is_positive', 'is_negative', 'is_pos_normal', 'is_neg_normal', 'is_pos_zero', 'is_neg_zero', 'is_pos_inf', 'is_neg_inf']


def pred_post(kinds, s, O):
    """kinds: zero, normal, inf, nan as terms; s: sign"""
    p = {n: O[n] for n in PRED}
    ps = [('exactly one kind is reported', tm.eq(tm.add(tm.add(tm.zext(p['is_zero'], 3), tm.zext(p['is_normal'], 3)), tm.add(tm.zext(p['is_inf'], 3), tm.zext(p['is_nan'], 3))), tm.const(1, 3)))]
    for n, k in zip(PRED, kinds):
        ps.append((n, tm.eq(p[n], k)))
    ps.append(('is_positive', tm.eq(p['is_positive'], tm.not_(s))))
    ps.append(('is_negative', tm.eq(p['is_negative'], s)))
    for k, b in (('normal', kinds[1]), ('zero', kinds[0]), ('inf', kinds[2])):
        ps.append(('is_pos_' + k, tm.eq(p['is_pos_' + k], tm.and_(b, tm.not_(s)))))
        ps.append(('is_neg_' + k, tm.eq(p['is_neg_' + k], tm.and_(b, s))))
    return ps


def preds(cls, E, F):
    w = E + F + (3 if cls == 'fp_flopoco' else 1)
    body = '  %s<%d,%d> X(vw::ld<%d>(x)); vw::st<2>(flags,X.get_flags());\n' % (cls, E, F, w)
    body += ''.join('  vw::st<1>(%s, X.%s());\n' % (n, n) for n in PRED)

    def post(I, O):
        if cls == 'fp_flopoco':
            x = sp.unpack(I['x'], E, F)
            kinds, s = [x.is_(k) for k in range(4)], x.s
        else:
            x = sp.IEEE(I['x'], E, F)
            kinds, s = [tm.or_(x.zero, x.sub), x.norm, x.inf, x.nan], x.s
        fl = tm.ite(kinds[0], tm.const(0, 2), tm.ite(kinds[1], tm.const(1, 2), tm.ite(kinds[2], tm.const(2, 2), tm.const(3, 2))))
        return pred_post(kinds, s, O) + [('the flags name the kind', tm.eq(O['flags'], fl))]
    return Job('kinds_%s_%d_%d' % (cls, E, F), body, [fpin('x', E, F) if cls == 'fp_flopoco' else iein('x', E, F)], [('flags', 2)] + [(n, 1) for n in PRED], post,
               desc='kind predicates of %s<%d,%d>' % (cls, E, F))


def groups(tier):
    gs = []
    fm = [(E, F) for F in range(2, 33) for E in ([3 + (F * 5) % 9] if tier == 'quick' else range(3, 13))] + [(8, 23), (11, 52), (15, 60), (20, 20), (28, 6), (5, 10), (2, 1), (2, 3), (3, 2), (8, 7)]
    fm = sorted(set(fm))
    for i in range(0, len(fm), 6):
        js = []
        for E, F in fm[i:i + 6]:
            js += [from_ieee(E, F, 'convert'), to_ieee(E, F), preds('fp_flopoco', E, F), preds('fp_ieee', E, F), from_ieee(E, F, 'promote')]
        gs.append(Group('ieee_%d' % i, PRE, js, weight=30))
    return gs
