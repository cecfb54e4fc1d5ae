"""P08: reciprocals"""
from vc.core import Group, Job, Case
from vc import spec as sp, terms as tm, cuts, fpu
from vc.terms import const, zext, cat, eq, not_, sub, ite, andl, implies, shlc
from .fpadd import fpin
from .p07 import posts, PRE


def one(E, F):
    return sp.fconst(E, F, sp.NORM, None, sp.bias(E), 0)


def job(E, F, fn='inv_v1'):
    body = '''  fp_flopoco<%d,%d> Y(vw::ld<%d>(y)); vw::st<%d>(r, (%s<%d,%d>(Y,0)).bits);''' % (E, F, E + F + 3, E + F + 3, fn, E, F)
    return Job(fn, body, [fpin('y', E, F)], [('r', E + F + 3)],
               *posts(E, F, lambda I: one(E, F), lambda I: sp.unpack(I['y'], E, F), 'reciprocal'),
               desc=fn + ' on fp_flopoco<%d,%d>' % (E, F), cuts=lambda I: cuts.SrtDivision(I, F, None, 'yf'))


def nr_posts(E, FR, FY, faithful):
    """the reciprocal of an FY-bit significand at FR bits: a neighbour of the exact value (the value
    itself when it is representable), or the nearest"""
    n = FR + 1 + FY
    half = 1 << (FR + 1)

    def parts(I, O):
        y, r = sp.unpack(I['y'], E, FY), sp.unpack(O['r'], E, FR)
        m = (1 << E) - 1
        e = sub(const(2 * sp.bias(E), E), y.e)              # 2 bias - exponent field: the result's field when the significand is one
        low = eq(y.e, const(m, E))                          # 1/y is below the smallest normal whatever its significand
        edge = eq(y.e, const(m - 1, E))
        top = eq(r.e, e)
        R = ite(top, const(half, FR + 2), cat(const(1, 2), r.f))
        shape = andl(r.is_(1), eq(r.s, y.s), not_(low), implies(top, eq(r.f, const(0, FR))),
                     implies(not_(top), andl(not_(edge), eq(r.e, sub(e, const(1, E))))))
        zero = andl(r.is_(0), eq(r.s, y.s))
        return y, r, R, low, edge, shape, zero

    def near(R, yf):
        W = n + 4
        Y = cat(const(1, 1), yf)
        d = sub(zext(tm.mulx(R, Y), W), const(1 << n, W))
        d = ite(tm.msb(d), tm.neg(d), d)
        one = eq(yf, const(0, FY))
        if faithful:
            return andl(tm.ult(d, zext(Y, W)), implies(one, eq(R, const(half, R.w))))
        return tm.ule(shlc(d, 1), zext(Y, W))

    def below(yf):
        """a result whose significand is below one is allowed"""
        one = eq(yf, const(0, FY))
        return not_(one) if faithful else not_(near(const(half, FR + 2), yf))

    what = 'the result is a neighbour of the exact reciprocal, and exact when that is representable' if faithful else \
        'the result is the exact reciprocal rounded to nearest even'

    def post(I, O):
        y, r, R, low, edge, shape, zero = parts(I, O)
        sp_ = sp.same(r, sp.special_div(one(E, FR), sp.widen(y, E, max(FR, FY)), sp.fconst(E, FR, sp.NAN), E, FR))
        nrm = tm.or_(andl(shape, near(R, y.f)), andl(zero, tm.or_(low, andl(edge, below(y.f)))))
        return [(what, ite(y.is_(1), nrm, sp_))]

    def cases(I):
        y = sp.unpack(I['y'], E, FY)
        b = I['cut'].bracket if 'cut' in I and faithful else None
        if b is None:
            return [Case('', tm.true(), post)]

        def ghost(I, O):
            y, r, R, low, edge, shape, zero = parts(I, O)
            top = eq(zext(b, FR + 2), const(half, FR + 2))
            return [(what, ite(tm.or_(low, andl(edge, not_(top))), zero, andl(shape, eq(R, zext(b, FR + 2)))))]
        return [Case('special operands', not_(y.is_(1)), post), Case('normal operands', y.is_(1), ghost)]
    return post, None, cases


def nr_job(kind, E, FR, FY):
    body = '''  fp_flopoco<%d,%d> Y(vw::ld<%d>(y)); vw::st<%d>(r, (%s<%d,%d>(Y,0)).bits);''' % (E, FY, E + FY + 3, E + FR + 3, kind, E, FR)
    f = kind != 'inv_direct'
    return Job(kind, body, [fpin('y', E, FY)], [('r', E + FR + 3)], *nr_posts(E, FR, FY, f), desc='%s<%d,%d> on fp_flopoco<%d,%d>' % (kind, E, FR, E, FY),
               cuts=(lambda I: cuts.Newton(I, 'yf', FY, FR)) if f else None, models=fpu.models(), fuzz_hook=nr_hook(FY), bounded_tests=20000000)


def nr_hook(FY):
    """significands next to the ends of the intervals of a table, where the Newton error is largest"""
    if FY < 10 or FY > 56:
        return ''
    return ('uint64_t M=(1ull<<%d)-1; int t=5+rn()%%6; uint64_t f=(rn()&((1ull<<t)-1))<<(%d-(t<%d?t:%d)); int z=rn()%%4; uint64_t j=rn()>>(8+rn()%%56); '
            'f = z==0 ? f+j : z==1 ? f-1-j : z==2 ? (f>>1)+j : (IN[0]&M); IN[0]=(IN[0]&~M)|(f&M);' % (FY, FY, FY, FY))


# E, FR, FY
DIRECT = [(8, 10, 10), (5, 8, 8), (4, 3, 3), (6, 12, 9), (5, 8, 10), (4, 5, 11), (6, 20, 6), (11, 9, 9)]
NEWTON = [(8, 8, 8), (5, 9, 9), (5, 10, 10), (6, 11, 11), (8, 12, 12), (7, 13, 13), (8, 14, 14), (8, 15, 15), (8, 16, 16), (8, 17, 17), (9, 19, 19), (8, 21, 21),
          (8, 23, 23), (8, 22, 22), (9, 27, 27), (8, 29, 29), (8, 30, 30), (8, 31, 31), (9, 32, 32), (8, 33, 33), (8, 36, 36), (10, 40, 40), (8, 43, 43), (8, 46, 46), (8, 48, 48), (11, 52, 52),
          (8, 23, 18), (8, 18, 23), (8, 20, 22), (8, 27, 19), (8, 40, 20), (8, 20, 40), (5, 13, 30), (5, 14, 30), (5, 15, 8), (5, 30, 48), (5, 31, 48), (6, 48, 8),
          (4, 3, 3), (4, 6, 6), (5, 7, 7), (6, 20, 5), (5, 10, 7), (4, 6, 10), (4, 5, 11), (11, 6, 6)]


def groups(tier):
    gs = []
    if tier == 'quick':
        fs = [(4 + (i * 5) % 9, F) for i, F in enumerate(range(3, 33))] + [(8, 23), (11, 52), (5, 10), (4, 3), (12, 3), (4, 32), (20, 14), (26, 5), (12, 40)]
    else:
        fs = [(E, F) for F in range(3, 33) for E in range(4, 13)] + [(11, 52), (15, 60)]
    for E, F in sorted(set(fs)):
        gs.append(Group('inv_v1_%d_%d' % (E, F), PRE + '#include "thls/tops/fp_flopoco_inv_v1.hpp"', [job(E, F)], weight=F))
    d, n = DIRECT, NEWTON
    if tier != 'quick':
        d = d + [(E, F, F) for E in (4, 8) for F in range(2, 13)] + [(8, 16, 14)]
        n = n + [(E, F, F) for E in (4, 8, 11) for F in range(2, 56)] + [(8, FR, FY) for FR in range(8, 53, 4) for FY in range(8, 53, 5)]
    for kind, fs in (('inv_direct', d), ('inv_table_newton', n), ('inv_faithful', [(8, 23, 23), (5, 10, 10), (4, 6, 6), (11, 52, 52)])):
        for f in sorted(set(fs)):
            gs.append(Group('%s_%d_%d_%d' % ((kind,) + f), PRE, [nr_job(kind, *f)], weight=f[1] + f[2]))
    for E, F in ((5, 10), (8, 23)):
        gs.append(Group('inv_%d_%d' % (E, F), PRE, [job(E, F, 'inv')], weight=F))
    return gs
