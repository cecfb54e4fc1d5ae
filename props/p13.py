"""P13: neighbour stepping and numeric limits"""
from vc.core import Group, Job
from vc import spec as sp, terms as tm, fpu
from .fpadd import fpin

ASSUMPTIONS = ['floating-point instructions and ldexp/frexp follow IEEE 754 round-to-nearest-even (vc/fpu.py, vc/ieee.py)']

PRE = '#include "thls/tops/fp_flopoco_primitives.hpp"\n'


def step(E, F):
    w = E + F + 3
    body = '''  fp_flopoco<%d,%d> X(vw::ld<%d>(x)); fp_flopoco<%d,%d> U=nextup(X), D=nextdown(X);
  vw::st<%d>(u,U.bits); vw::st<%d>(d,D.bits); vw::st<%d>(ud,nextdown(U).bits); vw::st<%d>(du,nextup(D).bits);
  vw::st<%d>(au,nextafter(X,INFINITY).bits); vw::st<%d>(ad,nextafter(X,-INFINITY).bits);''' % (E, F, w, E, F, w, w, w, w, w, w)

    def post(I, O):
        x, u, d = [sp.unpack(t, E, F) for t in (I['x'], O['u'], O['d'])]
        nan = x.is_(3)
        nn = tm.not_(nan)
        pinf, ninf = tm.and_(x.is_(2), tm.not_(x.s)), tm.and_(x.is_(2), x.s)
        p, pu, pd = sp.step_pos(x), sp.step_pos(u), sp.step_pos(d)
        one = tm.const(1, p.w)
        ps = [('NaN steps to NaN', tm.implies(nan, tm.and_(u.is_(3), d.is_(3)))),
              ('stepping up from a number gives the next one', tm.implies(nn, tm.and_(tm.not_(u.is_(3)), tm.eq(pu, tm.ite(pinf, p, tm.add(p, one)))))),
              ('stepping down from a number gives the one before', tm.implies(nn, tm.and_(tm.not_(d.is_(3)), tm.eq(pd, tm.ite(ninf, p, tm.sub(p, one)))))),
              ('up then down returns to the start', tm.implies(tm.not_(pinf), sp.same(sp.unpack(O['ud'], E, F), x))),
              ('down then up returns to the start', tm.implies(tm.not_(ninf), sp.same(sp.unpack(O['du'], E, F), x))),
              ('nextafter towards infinity is nextup', sp.same(sp.unpack(O['au'], E, F), u)),
              ('nextafter towards minus infinity is nextdown', sp.same(sp.unpack(O['ad'], E, F), d))]
        return ps
    return Job('step_%d_%d' % (E, F), body, [fpin('x', E, F)], [(n, w) for n in ('u', 'd', 'ud', 'du', 'au', 'ad')], post, desc='nextup, nextdown, nextafter on fp_flopoco<%d,%d>' % (E, F), models=fpu.models())


def ulp(E, F):
    w = E + F + 3
    body = '''  fp_flopoco<%d,%d> X(vw::ld<%d>(x)), Y(vw::ld<%d>(y)); vw::st<1>(r,X.within_1ulp(Y));''' % (E, F, w, w)

    def post(I, O):
        x, y = sp.unpack(I['x'], E, F), sp.unpack(I['y'], E, F)

        def mag(a):
            m = sp.FP(E, F, a.flags, tm.const(0, 1), a.e, a.f)
            return sp.step_pos(m)
        a, b = mag(x), mag(y)
        d = tm.ite(tm.ult(a, b), tm.sub(b, a), tm.sub(a, b))
        near = tm.ule(d, tm.const(1, d.w))
        zz = tm.or_(x.is_(0), y.is_(0))
        want = tm.ite(tm.or_(x.is_(3), y.is_(3)), tm.and_(x.is_(3), y.is_(3)), tm.and_(near, tm.or_(zz, tm.eq(x.s, y.s))))
        return [('two numbers are within one step iff equal or neighbours', tm.eq(O['r'], want))]
    return Job('within_%d_%d' % (E, F), body, [fpin('x', E, F), fpin('y', E, F)], [('r', 1)], post, desc='within_1ulp on fp_flopoco<%d,%d>' % (E, F))


def limits(E, F):
    w = E + F + 3
    b = sp.bias(E)
    C = lambda fl, s, e=0, f=0: (((fl << 1 | s) << E | e) << F) | f
    top, ones = (1 << E) - 1, (1 << F) - 1
    fixed = [('min', C(1, 0)), ('neg_min', C(1, 1)), ('max', C(1, 0, top, ones)), ('neg_max', C(1, 1, top, ones)), ('lowest', C(1, 1, top, ones)), ('infinity', C(2, 0)),
             ('neg_infinity', C(2, 1)), ('quiet_NaN', C(3, 0)), ('denorm_min', C(1, 0)), ('pos_zero', C(0, 0)), ('neg_zero', C(0, 1)), ('zero', C(0, 0)),
             ('pos_one', C(1, 0, b)), ('neg_one', C(1, 1, b)), ('one', C(1, 0, b)), ('round_error', C(1, 0, b - 1))]
    if b >= F:
        fixed.append(('epsilon', C(1, 0, b - F)))
    body = '  typedef std::numeric_limits<fp_flopoco<%d,%d> > L;\n' % (E, F)
    body += ''.join('  vw::st<%d>(%s_,L::%s().bits);\n' % (w, n, n) for n, _ in fixed)
    body += '  fp_flopoco<%d,%d> B; B=nextup(L::one()); vw::st<%d>(above,B.bits); X[0]=L::digits; X[1]=L::radix; X[2]=uint32_t(L::min_exponent); X[3]=uint32_t(L::max_exponent); X[4]=L::has_infinity*4+L::has_quiet_NaN*2+L::is_signed;\n' % (E, F, w)
    body += '  typedef fp_flopoco<%d,%d> T; X[5]=uint32_t(int(T::min_exponent)); X[6]=uint32_t(int(T::max_exponent)); X[7]=uint32_t(int(T::bias)); X[8]=int(T::exp_bits); X[9]=int(T::frac_bits); (void)x;' % (E, F)
    body = body.replace('X[', 'k[')

    def post(I, O):
        ps = [(n + ' is exactly that of the format', sp.same(sp.unpack(O[n + '_'], E, F), sp.unpack(tm.const(v, w), E, F))) for n, v in fixed]
        ps.append(('the number above one is one plus epsilon', tm.eq(O['above'], tm.const(C(1, 0, b, 1), w))))
        M = 2**32
        for i, v in enumerate([F + 1, 2, -b % M, b + 1, 7, -b % M, b + 1, b, E, F]):
            ps.append(('constant %d describes the format' % i, tm.eq(tm.ext(O['k'], 64 * i + 63, 64 * i), tm.const(v, 64))))
        return ps
    return Job('limits_%d_%d' % (E, F), body, [('x', 1)], [(n + '_', w) for n, _ in fixed] + [('above', w), ('k', 640)], post, desc='numeric_limits<fp_flopoco<%d,%d> >' % (E, F))


def groups(tier):
    gs = []
    fm = [(E, F) for F in range(2, 33) for E in ([3 + (F * 5) % 9] if tier == 'quick' else range(3, 13))] + [(8, 23), (11, 52), (15, 60), (20, 20), (28, 6), (5, 10), (2, 1), (2, 3), (3, 2), (8, 7), (4, 3), (6, 31)]
    fm = sorted(set(fm))
    for i in range(0, len(fm), 6):
        js = []
        for E, F in fm[i:i + 6]:
            js += [step(E, F), limits(E, F), ulp(E, F)]
        gs.append(Group('step_%d' % i, PRE, js, weight=30))
    return gs
