"""P15: dot products of positive vectors, rounded towards minus infinity"""
from vc.core import Group, Job, Case
from vc import spec as sp, terms as tm, arith
from .fpadd import fpin

ASSUMPTIONS = ['the step from the z3 lemmas of lemmas() to the floor of the exact sum is the argument written in its docstring']

PRE = '#include "thls/tops/fp_flopoco_primitives.hpp"\n#include <array>\n#include <random>\n#include "thls/tops/fp_flopoco_dot%d_pos_rndd.hpp"\n'
GUARD = {2: 1, 4: 2}      # bits above the products that the sum needs


def body(n, E, F):
    w = E + F + 3
    names = ['%s%d' % (c, i) for c in 'ab' for i in range(n)]
    s = '  typedef fp_flopoco<%d,%d> T; ' % (E, F)
    s += ' '.join('T V%s(vw::ld<%d>(%s));' % (x, w, x) for x in names) + '\n'
    s += '  vw::st<%d>(r, dot%d_pos_rndd(%s).bits);\n' % (w, n, ', '.join('V' + x for x in names))
    return s, names


def pre(n, E, F):
    def f(I):
        return tm.andl(*[tm.eq(tm.ext(I[x], E + F + 2, E + F), tm.const(2, 3)) for x in body(n, E, F)[1]])
    return f


def terms(I, n, E, F):
    """exponent sums and exact products of the significands"""
    es, ps = [], []
    for i in range(n):
        a, b = sp.unpack(I['a%d' % i], E, F), sp.unpack(I['b%d' % i], E, F)
        es.append(tm.add(tm.zext(a.e, E + 1), tm.zext(b.e, E + 1)))
        ps.append(tm.mul(tm.zext(tm.cat(tm.const(1, 1), a.f), 2 * F + 2), tm.zext(tm.cat(tm.const(1, 1), b.f), 2 * F + 2)))
    return es, ps


def top(es):
    t = es[0]
    for e in es[1:]:
        t = tm.ite(tm.ult(t, e), e, t)
    return t


def total(es, ps, t, n, F, win, order):
    """sum of the products aligned to the exponent sum t, in units of 2^(t - 2F - win); bits shifted
    below that unit are dropped product by product (none are when win covers every shift)"""
    W = 2 * F + 2 + win + GUARD[n]
    S = None
    for i in order:
        x = tm.zext(tm.cat(ps[i], tm.const(0, win)) if win else ps[i], W)
        d = tm.sub(t, es[i])
        if (1 << d.w) > W:
            x = tm.ite(tm.ult(d, tm.const(W, d.w)), tm.lshr(x, tm.trunc(d, W) if d.w > W else tm.zext(d, W)), tm.const(0, W))
        else:
            x = tm.lshr(x, tm.zext(d, W))
        S = x if S is None else tm.add(S, x)
    return S


def rd(S, t, n, E, F, win):
    """that sum rounded down into fp_flopoco<E,F>"""
    L = 2 * F + win              # position of weight one
    k, f = tm.const(0, E + 3), tm.ext(S, L - 1, L - F)
    for j in range(1, S.w - L):
        c = tm.bit(S, L + j)
        k = tm.ite(c, tm.const(j, E + 3), k)
        f = tm.ite(c, tm.ext(S, L + j - 1, L + j - F), f)
    e = tm.add(tm.zext(t, E + 3), k)
    bias = (1 << (E - 1)) - 1
    under = tm.ult(e, tm.const(bias, E + 3))
    over = tm.ule(tm.const(bias + (1 << E), E + 3), e)
    e2 = tm.ext(tm.sub(e, tm.const(bias, E + 3)), E - 1, 0)
    fl = tm.ite(under, tm.const(0, 2), tm.ite(over, tm.const(2, 2), tm.const(1, 2)))
    return sp.FP(E, F, fl, tm.const(0, 1), e2, f)


def exact_window(n, E, F):
    """fraction bits, beyond those of a product, that make the alignment lossless; for two terms one
    truncation never changes the floor, so a window past the wider of the two is enough"""
    span = (1 << (E + 1)) - 2
    return min(span, 2 * F + 4) if n == 2 else span


def lemmas(F, win):
    """Dropping the bits below 2^-(2F+win) of each of three aligned products leaves the sum's floor
    at 2^-F unchanged.  In units of 2^-(2F+win): the largest product is p0 2^win and the others are
    x_i = p_i 2^(win - s_i), 0 <= p_i <= pmax; k_i is the floor of x_i.  Bits are dropped from x_i only
    if s_i > win, and then x_i <= pmax / 2.  The floor changes iff some q 2^(F+win) lies in (K, V],
    K = p0 2^win + k_1 + k_2 + k_3 and V the same with x_i.  One x_i inexact: V < K + 1.  Two inexact
    (called 2 and 3): x_1 = k_1 is a multiple of 2^(2F+2) if s_1 <= win - 2F - 2, and at most
    pmax 2^(2F+1) if not.  Three inexact: each at most pmax / 2."""
    if win < 2 * F + 2:
        return None
    pmax = ((1 << (F + 1)) - 1) ** 2
    m, n, K, V, x1, x2, x3 = arith.reals('m n K V x1 x2 x3')
    false = arith.lift(1) <= arith.lift(0)

    def crossed(unit):
        """the multiple of 2^(F+win) in (K, V] is unit (m + n), where unit m is the part of the sum
        that is a multiple of unit and n is an integer: so n > 0"""
        assert (1 << (F + win)) % unit == 0
        return [n > 0, m * unit <= K, K < (m + n) * unit, (m + n) * unit <= V]
    small = [x2 * 2 <= pmax, x3 * 2 <= pmax]
    close, far = 1 << (2 * F + 2), 1 << win
    return [('one inexact product', [n > 0, V < K + 1, K + n <= V], false),
            ('two inexact products, a close one', crossed(close) + small + [V <= m * close + x2 + x3], false),
            ('two inexact products, no close one', crossed(far) + small + [x1 <= pmax << (2 * F + 1), V <= m * far + x1 + x2 + x3], false),
            ('three inexact products', crossed(far) + small + [x1 * 2 <= pmax, V <= m * far + x1 + x2 + x3], false)]


def dot(n, E, F):
    b, names = body(n, E, F)
    win = 4 * F + 3          # the window of the lemmas

    box = {}

    def post(I, O):
        box['O'] = O
        es, ps = terms(I, n, E, F)
        t, w = top(es), exact_window(n, E, F)
        return [('the result is the exact sum of products rounded down',
                 sp.same(sp.unpack(O['r'], E, F), rd(total(es, ps, t, n, F, w, range(n)), t, n, E, F, w)))]

    def cases(I):
        es, ps = terms(I, n, E, F)
        cs = []
        for m in range(n):
            h = tm.andl(*[tm.ule(es[j], es[m]) if j > m else tm.ult(es[j], es[m]) for j in range(n) if j != m])

            def derive(run, q, m=m, h=h):
                ls = lemmas(F, win) if win < exact_window(n, E, F) else []
                if ls is None or ls and arith.prove_all(ls, ints=('n',))[0]:
                    return None
                r = rd(total(es, ps, es[m], n, F, win, [(m - j) % n for j in range(n)]), es[m], n, E, F, win)
                goal = [job.pre(I), h, tm.not_(sp.same(sp.unpack(box['O']['r'], E, F), r))]
                # comparisons the case settles
                lt01, lt23 = tm.ult(es[0], es[1]), tm.ult(es[2], es[3])
                lt = tm.ult(tm.ite(lt01, es[1], es[0]), tm.ite(lt23, es[3], es[2]))
                known = [(lt, tm.const(m // 2, 1)), ((lt01, lt23)[m // 2], tm.const(m % 2, 1))]
                if run.check([h, tm.not_(tm.andl(*[tm.eq(x, y) for x, y in known]))], 60).status == 'unsat':
                    goal = [h] + tm.substitute(goal, {x.id: y for x, y in known})
                return goal, len(ls)
            cs.append(Case('the largest product is number %d' % m, h, post, derive=derive, direct=True))
        return cs
    job = Job('dot%d_%d_%d' % (n, E, F), b, [fpin(x, E, F) for x in names], [('r', E + F + 3)], post, pre=pre(n, E, F),
              cases=cases if n == 4 else None, desc='dot%d_pos_rndd<%d,%d>' % (n, E, F))
    return job


def groups(tier):
    fs = [(2, E, F) for E, F in [(8, 7), (8, 22), (8, 23), (8, 24), (5, 10), (11, 51), (11, 52), (11, 53), (11, 60), (3, 3), (3, 4), (4, 3), (4, 4), (6, 16),
                                 (2, 2), (1, 3), (9, 1), (15, 40)]]
    fs += [(4, E, F) for E, F in [(1, 3), (2, 3), (3, 3), (4, 3), (3, 4), (4, 4), (5, 4), (6, 4), (4, 5), (5, 5), (6, 5), (4, 16), (5, 16), (6, 16),
                                  (8, 7), (5, 10), (8, 20), (6, 19), (11, 8), (5, 1), (5, 2), (4, 7), (6, 7)]]
    if tier != 'quick':
        fs += [(2, E, F) for E in (4, 5, 8, 11) for F in range(1, 61, 3)] + [(4, E, F) for E in (4, 5, 6, 8, 11) for F in range(1, 21)]
    return [Group('dot%d_%d_%d' % f, PRE % f[0], [dot(*f)], libs=['-lmpfr', '-lgmp'], weight=f[0] * f[2]) for f in sorted(set(fs))]
