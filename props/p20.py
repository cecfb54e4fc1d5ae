"""P20: software floating-point multiplication"""
from vc.core import Group, Job, Case
from vc import ieee as ie, terms as tm
from .sf import PRE, FM, body, fin, same_value, classes, sum_split


def job(w):
    E, F = FM[w]

    def post(I, O):
        x, y, r = ie.U(I['x'], E, F), ie.U(I['y'], E, F), ie.U(O['r'], E, F)
        return [('the product is the IEEE 754 round-to-nearest-even product', same_value(O['r'], ie.mul_(I['x'], I['y'], E, F), w)),
                ('the sign is the exclusive-or of the signs', tm.or_(r.nan, tm.eq(r.s, tm.xor(x.s, y.s)))),
                ('the operator returns what the function returns', tm.eq(O['r'], O['p']))]

    def tiny(I, O):
        x, y = ie.U(I['x'], E, F), ie.U(I['y'], E, F)
        return [('the product of two subnormals is a signed zero', tm.eq(O['r'], ie.zero(tm.xor(x.s, y.s), E, F))),
                ('the operator returns what the function returns', tm.eq(O['r'], O['p']))]
    return Job('mul_f%d' % w, body(w, '  r[0] = f%d_mul(X,Y).v; p[0] = (X*Y).v;' % w), [fin('x', w), fin('y', w)], [('r', w), ('p', w)], post,
               cases=lambda I: classes(I, w, post, tiny, sum_split(w)), desc='f%d_mul and operator*' % w)


def groups(tier):
    g = [Group('f%d' % w, PRE, [job(w)], weight=w * w) for w in (32, 64)]
    g[1].shards = 4
    return g
