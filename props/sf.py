"""shared by P19..P22: the software floating-point functions against the IEEE 754 meaning of the encodings"""
from vc.core import Group, Job, Case
from vc import ieee as ie, terms as tm

PRE = '#include "thls/tops/fp_flopoco_primitives.hpp"\n#include "thls/tops/policy_softfloat.hpp"\n'
FM = {32: (8, 23), 64: (11, 52)}


def fin(n, w):
    E, F = FM[w]
    return (n, w, [(n + 's', 1), (n + 'e', E), (n + 'f', F)])


def body(w, stmts):
    return '  float%d_t X, Y; X.v = (uint%d_t)x[0]; Y.v = (uint%d_t)y[0];\n' % (w, w, w) + stmts


def same_value(r, want, w):
    """bit-identical, or both NaN"""
    E, F = FM[w]
    a, b = ie.U(r, E, F), ie.U(want, E, F)
    return tm.ite(b.nan, a.nan, tm.eq(r, want))


def binop(name, w, expr, spec, cases=None, **kw):
    E, F = FM[w]

    def post(I, O):
        return [('the result is the IEEE 754 round-to-nearest-even result', same_value(O['r'], spec(I['x'], I['y'], E, F), w))]
    return Job(name, body(w, '  r[0] = (%s).v;' % expr), [fin('x', w), fin('y', w)], [('r', w)], kw.pop('post', post), cases=cases,
               desc='%s on float%d_t' % (expr, w), **kw)


def sum_split(w):
    """split on the exponent of the product relative to the subnormal range"""
    E, F = FM[w]
    B = ie.bias(E)

    def f(x, y):
        S = tm.add(tm.zext(x.e, E + 1), tm.zext(y.e, E + 1))
        k = lambda v: tm.const(v, E + 1)
        return ([('exponent in the normal range', tm.ult(k(B), S))] +
                [('exponent %d below the normal range' % d, tm.eq(S, k(B - d))) for d in range(F + 4)] +
                [('exponent far below the normal range', tm.ult(S, k(B - F - 3)))])
    return f


def classes(I, w, post, both_sub=None, split=None):
    """case split for a product or quotient: the position of the leading one of a subnormal operand"""
    E, F = FM[w]
    x, y = ie.U(I['x'], E, F), ie.U(I['y'], E, F)
    num = lambda u: tm.and_(u.finite, tm.not_(u.zero))
    nrm = lambda u: tm.and_(num(u), tm.not_(u.e0))
    ns = lambda u: [(u.e0, tm.false())]
    cs = [Case('a zero, infinite or NaN operand', tm.not_(tm.and_(num(x), num(y))), post),
          Case('both normal', tm.and_(nrm(x), nrm(y)), post, subst=ns(x) + ns(y))]
    if split is not None:
        cs[1:] = [Case('both normal, ' + l, tm.andl(nrm(x), nrm(y), h), post, subst=ns(x) + ns(y)) for l, h in split(x, y)]

    def at(u, k):
        img = tm.cat(tm.const(1, F - k), tm.ext(u.f, k - 1, 0)) if k else tm.const(1, F)
        return tm.and_(u.sub, tm.eq(u.f, img)), [(u.e, tm.const(0, E)), (u.f, img)]
    for k in range(F):
        h, s = at(x, k)
        cs.append(Case('first subnormal with leading bit %d' % k, tm.and_(h, nrm(y)), post, subst=s + ns(y)))
        h, s = at(y, k)
        cs.append(Case('second subnormal with leading bit %d' % k, tm.and_(h, nrm(x)), post, subst=s + ns(x)))
        if both_sub is None:
            for j in range(F):
                h, s = at(x, k)
                h2, s2 = at(y, j)
                cs.append(Case('both subnormal, leading bits %d and %d' % (k, j), tm.and_(h, h2), post, subst=s + s2))
    if both_sub is not None:
        cs.append(Case('both subnormal', tm.and_(x.sub, y.sub), both_sub))
    return cs
