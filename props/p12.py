"""P12: comparisons"""
from vc.core import Group, Job
from vc import spec as sp, terms as tm
from .fpadd import fpin

PRE = '#include "thls/tops/fp_flopoco_primitives.hpp"\n#include "thls/tops/fp_flopoco_ordering.hpp"\n'
OPS = [('equal', 'eq'), ('not_equal', 'ne'), ('less_than', 'lt'), ('less_than_equal', 'le'), ('greater_than', 'gt'), ('greater_than_equal', 'ge')]


def cmp(EX, FX, EY, FY):
    body = '  fp_flopoco<%d,%d> X(vw::ld<%d>(x)); fp_flopoco<%d,%d> Y(vw::ld<%d>(y));\n' % (EX, FX, EX + FX + 3, EY, FY, EY + FY + 3)
    body += ''.join('  vw::st<1>(%s_, %s(X,Y));\n' % (o, f) for f, o in OPS)

    def post(I, O):
        x, y = sp.unpack(I['x'], EX, FX), sp.unpack(I['y'], EY, FY)
        ps = [(f + ' compares the real values', tm.eq(O[o + '_'], sp.compare_spec(o, x, y))) for f, o in OPS]
        nan = tm.or_(x.is_(3), y.is_(3))
        lt, gt, eq_, le, ge, ne_ = [O[o + '_'] for o in ('lt', 'gt', 'eq', 'le', 'ge', 'ne')]
        ps += [('exactly one of less, equal, greater holds without NaN', tm.implies(tm.not_(nan), tm.and_(
            tm.xor(tm.xor(lt, gt), eq_), tm.not_(tm.andl(lt, gt, eq_))))),
            ('not-equal is the negation of equal', tm.eq(ne_, tm.not_(eq_))),
            ('less-equal is less or equal', tm.eq(le, tm.or_(lt, eq_))),
            ('greater-equal is greater or equal', tm.eq(ge, tm.or_(gt, eq_)))]
        return ps
    return Job('compare_%d_%d_%d_%d' % (EX, FX, EY, FY), body, [fpin('x', EX, FX), fpin('y', EY, FY)], [(o + '_', 1) for _, o in OPS], post,
               desc='the six comparisons on fp_flopoco<%d,%d>, fp_flopoco<%d,%d>' % (EX, FX, EY, FY))


def order(E, F):
    """strict weak order: on three operands"""
    w = E + F + 3
    body = '  fp_flopoco<%d,%d> X(vw::ld<%d>(x)), Y(vw::ld<%d>(y)), Z(vw::ld<%d>(z));\n' % (E, F, w, w, w)
    body += ''.join('  vw::st<1>(%s, less_than(%s,%s));\n' % (a.lower() + b.lower(), a, b) for a, b in ('XX', 'XY', 'YX', 'YZ', 'ZY', 'XZ', 'ZX'))

    def post(I, O):
        nn = tm.not_(tm.orl(*[sp.unpack(I[n], E, F).is_(3) for n in 'xyz']))
        inc = lambda a, b: tm.not_(tm.or_(O[a + b], O[b + a]))
        return [('less-than is irreflexive', tm.not_(O['xx'])),
                ('less-than is asymmetric', tm.not_(tm.and_(O['xy'], O['yx']))),
                ('less-than is transitive', tm.implies(tm.andl(O['xy'], O['yz']), O['xz'])),
                ('incomparability is transitive', tm.implies(tm.andl(nn, inc('x', 'y'), inc('y', 'z')), inc('x', 'z')))]
    return Job('order_%d_%d' % (E, F), body, [fpin(n, E, F) for n in 'xyz'], [(n, 1) for n in ('xx', 'xy', 'yx', 'yz', 'zy', 'xz', 'zx')], post,
               desc='less_than is a strict weak order on fp_flopoco<%d,%d>' % (E, F))


MIXED = [(4, 3, 5, 3), (4, 3, 4, 5), (8, 23, 5, 10), (5, 10, 8, 23), (6, 9, 4, 12), (4, 12, 6, 9), (8, 23, 11, 52), (11, 52, 8, 23), (12, 3, 4, 32), (7, 10, 8, 10), (8, 10, 8, 11), (2, 1, 3, 2)]


def groups(tier):
    gs = []
    fm = [(E, F) for F in range(2, 33) for E in ([3 + (F * 5) % 9] if tier == 'quick' else range(3, 13))] + [(8, 23), (11, 52), (15, 60), (20, 20), (28, 6), (2, 1)]
    fm = sorted(set(fm))
    mixed = list(MIXED)
    if tier != 'quick':
        mixed += [(a, b, c, d) for a in (4, 8, 11) for b in (3, 10, 23) for c in (3, 6, 8, 12) for d in (2, 9, 23, 32)]
    mixed = sorted(set(mixed))
    for i in range(0, len(fm), 4):
        gs.append(Group('cmp_%d' % i, PRE, [cmp(E, F, E, F) for E, F in fm[i:i + 4]] + [order(E, F) for E, F in fm[i:i + 4]], weight=30))
    for i in range(0, len(mixed), 4):
        gs.append(Group('cmpmix_%d' % i, PRE, [cmp(*c) for c in mixed[i:i + 4]], weight=30))
    return gs
