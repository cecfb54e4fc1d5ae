"""P07: division"""
from vc.core import Group, Job, Case
from vc import spec as sp, terms as tm, cuts
from .fpadd import fpin

H = {'div_v1': '#include "thls/tops/fp_flopoco_div_v1.hpp"', 'div_v2': '#include "thls/tops/fp_flopoco_div_v2.hpp"',
     'div': '#include "thls/tops/fp_flopoco_primitives.hpp"'}
PRE = '#include "thls/tops/fp_flopoco_primitives.hpp"\n'


MIXED = [(8, 10, 8, 16), (8, 16, 8, 10), (5, 13, 7, 8), (7, 6, 5, 11), (8, 23, 11, 20), (4, 3, 9, 11), (6, 7, 6, 20), (11, 30, 8, 23), (5, 10, 8, 7)]


def job(name, expr, E, F, EX=None, FX=None, EY=None, FY=None):
    EX, FX, EY, FY = EX or E, FX or F, EY or E, FY or F
    body = '''  fp_flopoco<%d,%d> X(vw::ld<%d>(x)); fp_flopoco<%d,%d> Y(vw::ld<%d>(y));
  vw::st<%d>(r, (%s).bits);''' % (EX, FX, EX + FX + 3, EY, FY, EY + FY + 3, E + F + 3, expr)
    return Job(name, body, [fpin('x', EX, FX), fpin('y', EY, FY)], [('r', E + F + 3)], *posts(
        E, F, lambda I: sp.widen(sp.unpack(I['x'], EX, FX), max(EX, EY), F), lambda I: sp.widen(sp.unpack(I['y'], EY, FY), max(EX, EY), F), 'quotient'),
        desc='%s on fp_flopoco<%d,%d>, fp_flopoco<%d,%d>' % (name, EX, FX, EY, FY), cuts=lambda I: cuts.SrtDivision(I, F, 'xf', 'yf'),
        timeout=60 if F > 8 else 120)


def posts(E, F, X, Y, what):
    """(post, pre, cases) of a digit-recurrence division of X by Y"""
    def hint(I):
        c = I.get('cut')
        if c is None or len(c.digits) != (F + 4) // 2:
            return None
        return c.quotient()

    def cases(I):
        x, y = X(I), Y(I)
        nn = tm.and_(x.is_(1), y.is_(1))
        h = hint(I)

        def special(I, O):
            return [('special operands', sp.same(sp.unpack(O['r'], E, F), sp.special_div(x, y, sp.fconst(E, F, sp.NAN), E, F)))]
        cs = [Case('special operands', tm.not_(nn), special)]
        if h is None:
            cs.append(Case('normal operands', nn, post))
            return cs
        q, st, fit = h

        def hinted(I, O):
            return [('the result is the exact %s rounded to nearest even' % what,
                     sp.same(sp.unpack(O['r'], E, F), sp.div_normal(x, y, E, F, (q, st))))]
        cs.append(Case('normal operands', nn, hinted))
        return cs

    def post(I, O):
        return [('the result is the exact %s rounded to nearest even' % what,
                 sp.same(sp.unpack(O['r'], E, F), sp.div_spec(X(I), Y(I), E, F)))]
    return post, None, cases


def groups(tier):
    gs = []
    if tier == 'quick':
        fs = [(4 + (i * 5) % 9, F) for i, F in enumerate(range(3, 33))] + [(8, 23), (11, 52), (5, 10), (4, 3), (12, 3), (4, 32), (20, 14), (26, 5), (12, 40)]
    else:
        fs = [(E, F) for F in range(3, 33) for E in range(4, 13)] + [(11, 52), (15, 60)]
    for E, F in sorted(set(fs)):
        gs.append(Group('div_v1_%d_%d' % (E, F), PRE + H['div_v1'], [job('div_v1', 'div_v1<%d,%d>(X,Y,0)' % (E, F), E, F)], weight=F))
        gs.append(Group('div_v2_%d_%d' % (E, F), PRE + H['div_v2'], [job('div_v2', 'div_v2<%d,%d>(X,Y,0)' % (E, F), E, F)], weight=F))
    for EX, FX, EY, FY in MIXED[:4] if tier == 'quick' else MIXED:
        E, F = max(EX, EY), max(FX, FY)
        for v in ('v1', 'v2'):
            gs.append(Group('div_%s_%d_%d_%d_%d' % (v, EX, FX, EY, FY), PRE + H['div_' + v],
                            [job('div_' + v, 'div_%s<%d,%d>(X,Y,0)' % (v, E, F), E, F, EX, FX, EY, FY)], weight=F))
    return gs
