"""P19: software floating-point addition"""
from vc.core import Group, Case
from vc import ieee as ie, terms as tm
from .sf import PRE, FM, binop, same_value


def job(w):
    E, F = FM[w]

    def mk(k):
        def post(I, O):
            return [('the sum is the IEEE 754 round-to-nearest-even sum', same_value(O['r'], ie.add_(I['x'], I['y'], E, F, k), w)),
                    ('the operator returns what the function returns', tm.eq(O['r'], O['p']))]
        return post

    def cases(I):
        x, y = ie.U(I['x'], E, F), ie.U(I['y'], E, F)
        d = ie.order(x, y)[3]
        fin = tm.and_(x.finite, y.finite)
        cs = [Case('an infinite or NaN operand', tm.not_(fin), mk(None))]
        for k in range(F + 5):
            h = tm.and_(fin, tm.eq(d, tm.const(k, d.w)))
            for opp in (0, 1):
                o = tm.eq(tm.xor(x.s, y.s), tm.const(opp, 1))
                cs.append(Case('exponent distance %d, signs %s' % (k, ('equal', 'opposite')[opp]), tm.and_(h, o), mk(k)))
        cs.append(Case('exponent distance above %d' % (F + 4), tm.and_(fin, tm.ult(tm.const(F + 4, d.w), d)), mk('far')))
        return cs
    from .sf import body, fin as fi
    from vc.core import Job
    return Job('add_f%d' % w, body(w, '  r[0] = f%d_add(X,Y).v; p[0] = (X+Y).v;' % w), [fi('x', w), fi('y', w)], [('r', w), ('p', w)], mk(None), cases=cases,
               desc='f%d_add and operator+' % w)


def groups(tier):
    g = [Group('f%d' % w, PRE, [job(w)], weight=w * w) for w in (32, 64)]
    g[1].shards = 4
    return g
