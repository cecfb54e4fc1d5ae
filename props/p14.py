"""P14: multiply-add"""
from vc.core import Group, Job, Case
from vc import spec as sp, terms as tm
from .fpadd import fpin

PRE = '#include "thls/tops/fp_flopoco_primitives.hpp"\n#include "thls/tops/fp_flopoco_fma.hpp"\n'


def fma(E, F, EX, FX, EY, FY, EZ, FZ):
    ew, fw = max(EX, EY) + 2, max(FX + FY, F) + 2  # a format that holds every product exactly
    es, fs = (ew if ew > EZ else EZ + 1), max(fw, FZ)   # format of the sum
    body = '''  fp_flopoco<%d,%d> X(vw::ld<%d>(x)); fp_flopoco<%d,%d> Y(vw::ld<%d>(y)); fp_flopoco<%d,%d> Z(vw::ld<%d>(z));
  vw::st<%d>(r, (%s<%d,%d>(X,Y,Z)).bits);''' % (EX, FX, EX + FX + 3, EY, FY, EY + FY + 3, EZ, FZ, EZ + FZ + 3, E + F + 3,
                                                'flopoco_fma' if F % 2 else 'fma', E, F)

    def operands(I):
        x, y, z = sp.unpack(I['x'], EX, FX), sp.unpack(I['y'], EY, FY), sp.unpack(I['z'], EZ, FZ)
        e = max(EX, EY)
        return sp.mul_spec(sp.widen(x, e, FX), sp.widen(y, e, FY), ew, fw), z

    def mk(k):
        def post(I, O):
            p, z = operands(I)
            r = sp.unpack(O['r'], E, F)
            if k is None:       # zeros, infinities, NaNs: at most one rounding either way
                ok = sp.same(r, sp.convert_spec(sp.add_spec(p, z, es, fs), E, F))
            else:
                ok = sp.same(r, sp.convert_spec(sp.add_normal(p, z, max(E, es), F, k), E, F))
            return [('the result is the exact product plus the addend rounded once', ok)]
        return post

    def cases(I):
        p, z = operands(I)
        d = sp.add_exact_order(p, z, es, fs)[3]
        nn = tm.and_(p.is_(1), z.is_(1))
        cs = [Case('special operands', tm.not_(nn), mk(None))]
        top = min(fs + 4, 1 << (max(ew, EZ) + 1))
        cs += [Case('exponent distance %d' % k, tm.and_(nn, tm.eq(d, tm.const(k, d.w))), mk(k)) for k in range(top)]
        cs.append(Case('exponent distance above %d' % (top - 1), tm.and_(nn, tm.ult(tm.const(top - 1, d.w), d)), mk('far')))
        return cs
    fm = (E, F, EX, FX, EY, FY, EZ, FZ)
    return Job('fma_%d_%d_%d_%d_%d_%d_%d_%d' % fm, body, [fpin('x', EX, FX), fpin('y', EY, FY), fpin('z', EZ, FZ)], [('r', E + F + 3)], mk(None),
               cases=cases, desc='fma<%d,%d> on fp_flopoco<%d,%d>, <%d,%d>, <%d,%d>' % fm)


def groups(tier):
    fs = [(8, 23, 8, 23, 8, 23, 8, 23), (8, 23, 8, 23, 8, 25, 8, 23), (8, 23, 8, 24, 8, 23, 8, 23), (8, 23, 8, 23, 8, 23, 8, 26), (5, 4, 5, 4, 5, 4, 5, 4),
          (4, 3, 8, 10, 6, 5, 9, 40), (5, 10, 5, 10, 5, 10, 5, 10), (5, 3, 5, 10, 5, 10, 5, 10), (8, 30, 5, 4, 5, 4, 5, 4), (8, 7, 8, 7, 8, 7, 8, 23), (10, 6, 5, 4, 5, 4, 9, 6), (9, 6, 5, 4, 5, 4, 7, 6), (9, 6, 5, 4, 5, 4, 8, 6),
          (6, 4, 2, 3, 2, 3, 4, 4), (7, 12, 2, 3, 2, 3, 5, 12), (5, 8, 3, 2, 3, 4, 4, 8), (4, 4, 4, 4, 4, 4, 4, 4),
          (8, 40, 5, 4, 5, 4, 8, 8), (6, 11, 5, 4, 5, 3, 5, 10), (5, 20, 4, 6, 4, 6, 5, 20), (11, 30, 8, 7, 8, 7, 11, 30)]
    if tier != 'quick':
        fs += [(E, F, E, F, E, F, E, F) for E in (4, 6, 8, 10) for F in (3, 6, 9, 12, 16, 20, 24, 28, 32)]
        fs += [(8, 23, 11, 23, 8, 10, 11, 40), (8, 30, 8, 30, 8, 30, 8, 30), (6, 12, 5, 8, 7, 11, 4, 16), (9, 5, 4, 20, 4, 20, 4, 3)]
    return [Group('fma_%d_%d_%d_%d_%d_%d_%d_%d' % f, PRE, [fma(*f)], weight=f[3] * f[5], shards=4 if f[3] > 12 else 1) for f in sorted(set(fs))]
