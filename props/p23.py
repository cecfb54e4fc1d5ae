"""P23: the operators of the number wrappers"""
from vc.core import Group, Job, Case
from vc import spec as sp, terms as tm, cuts, ieee as ie
from .fpadd import fpin
from .p11 import iein
from . import p07, p19, p20, p22

PRE = '#include "thls/tops/fp_flopoco_primitives.hpp"\n#include "thls/tops/policy_flopoco.hpp"\n#include "thls/tops/policy_ieee_on_flopoco.hpp"\n'
OPS = p22.OPS
TXT = p22.TXT


# ------------------------------------------------------------------ native wrapper
def nat(E, F, stmts):
    w = E + F + 3
    return '''  typedef fp_flopoco_wrapper<%d,%d> T; fp_flopoco<%d,%d> RX(vw::ld<%d>(x)), RY(vw::ld<%d>(y)); T X(RX), Y(RY);
''' % (E, F, E, F, w, w) + stmts.replace('@', str(w))


def n_add(E, F):
    body = nat(E, F, '  vw::st<@>(r, (X+Y).raw.bits); T A(X); T B(A += Y); vw::st<@>(a, A.raw.bits); vw::st<@>(b, B.raw.bits); vw::st<@>(u, X.raw.bits);\n'
                     '  T S(X); S += S; vw::st<@>(s, S.raw.bits); vw::st<@>(q, (X+X).raw.bits);')

    def mk(k):
        def post(I, O):
            x, y = sp.unpack(I['x'], E, F), sp.unpack(I['y'], E, F)
            return [('the sum is correctly rounded', sp.same(sp.unpack(O['r'], E, F), sp.add_spec(x, y, E, F, k))),
                    ('compound addition leaves the sum', tm.eq(O['a'], O['r'])), ('compound addition returns the sum', tm.eq(O['b'], O['r'])),
                    ('compound addition of itself leaves the double', tm.eq(O['s'], O['q'])),
                    ('the operands are left alone', tm.eq(O['u'], I['x']))]
        return post

    def cases(I):
        x, y = sp.unpack(I['x'], E, F), sp.unpack(I['y'], E, F)
        d = sp.add_exact_order(x, y, E, F)[3]
        nn = tm.and_(x.is_(1), y.is_(1))
        cs = [Case('special operands', tm.not_(nn), mk(None))]
        cs += [Case('exponent distance %d' % k, tm.and_(nn, tm.eq(d, tm.const(k, d.w))), mk(k)) for k in range(min(F + 4, 1 << E))]
        cs.append(Case('exponent distance above %d' % (F + 3), tm.and_(nn, tm.ult(tm.const(F + 3, d.w), d)), mk('far')))
        return cs
    return Job('native_add_%d_%d' % (E, F), body, [fpin('x', E, F), fpin('y', E, F)], [(n, E + F + 3) for n in 'rabusq'], mk(None), cases=cases,
               desc='fp_flopoco_wrapper<%d,%d>: + and +=' % (E, F))


def n_mul(E, F):
    body = nat(E, F, '  vw::st<@>(r, (X*Y).raw.bits); T A(X); T B(A *= Y); vw::st<@>(a, A.raw.bits); vw::st<@>(b, B.raw.bits);\n'
                     '  T S(X); S *= S; vw::st<@>(s, S.raw.bits); vw::st<@>(q, (X*X).raw.bits);')

    def post(I, O):
        x, y = sp.unpack(I['x'], E, F), sp.unpack(I['y'], E, F)
        return [('the product is correctly rounded', sp.same(sp.unpack(O['r'], E, F), sp.mul_spec(x, y, E, F))),
                ('compound multiplication leaves the product', tm.eq(O['a'], O['r'])), ('compound multiplication returns the product', tm.eq(O['b'], O['r'])),
                ('compound multiplication by itself leaves the square', tm.eq(O['s'], O['q']))]
    return Job('native_mul_%d_%d' % (E, F), body, [fpin('x', E, F), fpin('y', E, F)], [(n, E + F + 3) for n in 'rabsq'], post,
               desc='fp_flopoco_wrapper<%d,%d>: * and *=' % (E, F))


def n_div(E, F):
    body = nat(E, F, '  vw::st<@>(r, (X/Y).raw.bits);')
    return Job('native_div_%d_%d' % (E, F), body, [fpin('x', E, F), fpin('y', E, F)], [('r', E + F + 3)], *p07.posts(
        E, F, lambda I: sp.unpack(I['x'], E, F), lambda I: sp.unpack(I['y'], E, F), 'quotient'),
        desc='fp_flopoco_wrapper<%d,%d>: /' % (E, F), cuts=lambda I: cuts.SrtDivision(I, F, 'xf', 'yf'))


def n_cmp(E, F):
    body = nat(E, F, ''.join('  %s[0] = X %s Y;\n' % o for o in OPS))

    def post(I, O):
        x, y = sp.unpack(I['x'], E, F), sp.unpack(I['y'], E, F)
        return [('the operator for %s' % TXT[o], tm.eq(O[o], sp.compare_spec(o, x, y))) for o, _ in OPS]
    return Job('native_cmp_%d_%d' % (E, F), body, [fpin('x', E, F), fpin('y', E, F)], [(o, 1) for o, _ in OPS], post,
               desc='fp_flopoco_wrapper<%d,%d>: comparisons' % (E, F))


# ------------------------------------------------------------------ IEEE storage, native arithmetic
def fl(x, E, F):
    """the native number an encoding stands for once subnormals read as zero"""
    u = ie.U(x, E, F)
    k = tm.ite(u.e0, tm.const(0, 2), tm.ite(u.finite, tm.const(1, 2), tm.ite(u.inf, tm.const(2, 2), tm.const(3, 2))))
    return sp.FP(E, F, k, u.s, u.e, u.f)


def enc(n, E, F):
    """encoding of a native result: below the normals flushed to zero, above the range infinity"""
    lo, hi = tm.eq(n.e, tm.const(0, E)), tm.eq(n.e, tm.const((1 << E) - 1, E))
    z, i = ie.zero(n.s, E, F), ie.inf(n.s, E, F)
    r = tm.ite(lo, z, tm.ite(hi, i, tm.cat(n.s, n.e, n.f)))
    r = tm.ite(n.is_(1), r, tm.ite(n.is_(0), z, i))
    return tm.ite(n.is_(3), ie.qnan(E, F), r)


def flush(x, E, F):
    u = ie.U(x, E, F)
    return tm.ite(u.e0, ie.zero(u.s, E, F), x)


def same_value(r, want, E, F):
    a, b = ie.U(r, E, F), ie.U(want, E, F)
    return tm.ite(b.nan, a.nan, tm.eq(r, want))


def iee(E, F, stmts):
    w = E + F + 1
    return '''  typedef fp_ieee_on_flopoco_wrapper<%d,%d> T; fp_ieee<%d,%d> RX(vw::ld<%d>(x)), RY(vw::ld<%d>(y)); T X(RX), Y(RY);
''' % (E, F, E, F, w, w) + stmts.replace('@', str(w))


def i_add(E, F):
    body = iee(E, F, '  vw::st<@>(r, (X+Y).raw.bits); vw::st<@>(u, X.raw.bits);')

    def mk(k):
        def post(I, O):
            x, y = flush(I['x'], E, F), flush(I['y'], E, F)
            return [('the sum is the IEEE 754 sum with subnormals flushed', same_value(O['r'], flush(ie.add_(x, y, E, F, k), E, F), E, F)),
                    ('the operands are left alone', tm.eq(O['u'], I['x']))]
        return post

    def cases(I):
        x, y = ie.U(flush(I['x'], E, F), E, F), ie.U(flush(I['y'], E, F), E, F)
        d = ie.order(x, y)[3]
        nn = tm.andl(x.finite, y.finite, tm.not_(x.zero), tm.not_(y.zero))
        cs = [Case('special operands', tm.not_(nn), mk(None))]
        cs += [Case('exponent distance %d' % k, tm.and_(nn, tm.eq(d, tm.const(k, d.w))), mk(k)) for k in range(min(F + 4, 1 << E))]
        cs.append(Case('exponent distance above %d' % (F + 3), tm.and_(nn, tm.ult(tm.const(F + 3, d.w), d)), mk('far')))
        return cs
    return Job('ieee_add_%d_%d' % (E, F), body, [iein('x', E, F), iein('y', E, F)], [(n, E + F + 1) for n in 'ru'], mk(None), cases=cases,
               desc='fp_ieee_on_flopoco_wrapper<%d,%d>: +' % (E, F))


def i_mul(E, F):
    body = iee(E, F, '  vw::st<@>(r, (X*Y).raw.bits);')

    def post(I, O):
        x, y = fl(I['x'], E, F), fl(I['y'], E, F)
        return [('the product is the IEEE 754 product with subnormals flushed', same_value(O['r'], enc(sp.mul_spec(x, y, E, F), E, F), E, F))]
    return Job('ieee_mul_%d_%d' % (E, F), body, [iein('x', E, F), iein('y', E, F)], [('r', E + F + 1)], post, desc='fp_ieee_on_flopoco_wrapper<%d,%d>: *' % (E, F))


def i_div(E, F):
    body = iee(E, F, '  vw::st<@>(r, (X/Y).raw.bits);')

    def post(I, O):
        x, y = fl(I['x'], E, F), fl(I['y'], E, F)
        return [('the quotient is the IEEE 754 quotient with subnormals flushed', same_value(O['r'], enc(sp.div_spec(x, y, E, F), E, F), E, F))]

    def cases(I):
        x, y = fl(I['x'], E, F), fl(I['y'], E, F)
        nn = tm.and_(x.is_(1), y.is_(1))

        def special(I, O):
            return [('special operands', same_value(O['r'], enc(sp.special_div(x, y, sp.fconst(E, F, sp.NAN), E, F), E, F), E, F))]
        cs = [Case('special operands', tm.not_(nn), special)]
        c = I.get('cut')
        if c is None or len(c.digits) != (F + 4) // 2:
            return cs + [Case('normal operands', nn, post)]
        q, st, fit = c.quotient()

        def hinted(I, O):
            return [('the quotient is the IEEE 754 quotient with subnormals flushed',
                     same_value(O['r'], enc(sp.div_normal(x, y, E, F, (q, st)), E, F), E, F))]
        return cs + [Case('normal operands', nn, hinted)]
    return Job('ieee_div_%d_%d' % (E, F), body, [iein('x', E, F), iein('y', E, F)], [('r', E + F + 1)], post, cases=cases,
               desc='fp_ieee_on_flopoco_wrapper<%d,%d>: /' % (E, F), cuts=lambda I: cuts.SrtDivision(I, F, 'xf', 'yf'))


def i_cmp(E, F):
    body = iee(E, F, ''.join('  %s[0] = X %s Y;\n' % o for o in OPS))

    def post(I, O):
        x, y = flush(I['x'], E, F), flush(I['y'], E, F)
        return [('the operator for %s' % TXT[o], tm.eq(O[o], ie.cmp_(o, x, y, E, F))) for o, _ in OPS]
    return Job('ieee_cmp_%d_%d' % (E, F), body, [iein('x', E, F), iein('y', E, F)], [(o, 1) for o, _ in OPS], post,
               desc='fp_ieee_on_flopoco_wrapper<%d,%d>: comparisons' % (E, F))


def soft(w):
    from .sf import body, fin
    b = body(w, ''.join('  f%s[0] = f%d_%s(X,Y).v; o%s[0] = (X %s Y).v;\n' % (n, w, n, n, o) for n, o in (('add', '+'), ('mul', '*'), ('div', '/'))))

    def post(I, O):
        return [('the operator for %s returns what the function returns' % t, tm.eq(O['o' + n], O['f' + n])) for n, t in (('add', 'sum'), ('mul', 'product'), ('div', 'quotient'))]
    return Job('soft_ops_f%d' % w, b, [fin('x', w), fin('y', w)], [(p + n, w) for n in ('add', 'mul', 'div') for p in 'fo'], post,
               desc='operators +, *, / on float%d_t' % w)


def groups(tier):
    gs = []
    fs = [(5, 10), (8, 23), (6, 9), (4, 5), (8, 7), (9, 17)] if tier == 'quick' else [(5, 10), (8, 23), (11, 52), (6, 9), (4, 5), (8, 7), (9, 17), (4, 13), (12, 32), (7, 28), (10, 3)]
    for E, F in fs:
        for f in (n_add, n_mul, n_div, n_cmp, i_add, i_mul, i_div, i_cmp):
            gs.append(Group('%s_%d_%d' % (f.__name__, E, F), PRE, [f(E, F)], weight=F * F if 'cmp' not in f.__name__ else F))
    from .sf import PRE as SP
    gs.append(Group('soft', SP, [p22.job(32), p22.job(64), soft(32), soft(64)], weight=20))
    return gs
