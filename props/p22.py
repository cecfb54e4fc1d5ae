"""P22: software floating-point comparisons"""
from vc.core import Group, Job
from vc import ieee as ie, terms as tm
from .sf import PRE, FM, fin, body

OPS = [('eq', '=='), ('ne', '!='), ('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>=')]
TXT = {'eq': 'equal', 'ne': 'not equal', 'lt': 'less than', 'le': 'less or equal', 'gt': 'greater than', 'ge': 'greater or equal'}


def job(w):
    E, F = FM[w]
    b = body(w, ''.join('  f_%s[0] = f%d_%s(X,Y);\n' % (o, w, o) for o in ('eq', 'lt', 'le')) + ''.join('  o_%s[0] = X %s Y;\n' % o for o in OPS))

    def post(I, O):
        ps = []
        for o in ('eq', 'lt', 'le'):
            ps.append(('the function for %s gives the IEEE 754 relation' % TXT[o], tm.eq(O['f_' + o], ie.cmp_(o, I['x'], I['y'], E, F))))
        for o, s in OPS:
            ps.append(('the operator for %s gives the IEEE 754 relation' % TXT[o], tm.eq(O['o_' + o], ie.cmp_(o, I['x'], I['y'], E, F))))
        return ps
    return Job('compare_f%d' % w, b, [fin('x', w), fin('y', w)], [('f_' + o, 1) for o in ('eq', 'lt', 'le')] + [('o_' + o, 1) for o, s in OPS], post,
               desc='f%d_eq/lt/le and the six operators' % w)


def groups(tier):
    return [Group('f%d' % w, PRE, [job(w)]) for w in (32, 64)]
