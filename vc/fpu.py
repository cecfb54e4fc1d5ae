"""Floating-point instructions and libm functions for the symbolic engine, with the IEEE 754
round-to-nearest-even meaning of vc/ieee.py (assumed of the compiler's target and of libm)."""
from . import terms as tm, ieee as ie
from .terms import const


def fmt(w):
    return ie.FMT[w]


class FPU:
    def bin(self, eng, st, op, a, b):
        E, F = fmt(a.w)
        if op == 'fadd':
            return ie.add_(a, b, E, F)
        if op == 'fsub':
            return ie.add_(a, ie.neg(b), E, F)
        if op == 'fmul':
            return ie.mul_(a, b, E, F)
        if op == 'fdiv':
            return ie.div_(a, b, E, F)
        from .exec import Unsupported
        raise Unsupported('floating ' + op)

    def cmp(self, eng, st, pr, a, b):
        E, F = fmt(a.w)
        x, y = ie.U(a, E, F), ie.U(b, E, F)
        un = tm.or_(x.nan, y.nan)
        if pr == 'uno':
            return un
        if pr == 'ord':
            return tm.not_(un)
        if pr in ('true', 'false'):
            return const(int(pr == 'true'), 1)
        op = pr[1:]
        r = ie.cmp_(op, a, b, E, F)
        if pr[0] == 'u':
            return tm.or_(un, r)
        return tm.and_(tm.not_(un), r)

    def cast(self, eng, st, op, sty, x, dty):
        from .exec import Unsupported
        w = dty[1]
        if op in ('uitofp', 'sitofp'):
            E, F = fmt(w)
            return ie.from_uint(x, E, F) if op[0] == 'u' else ie.from_sint(x, E, F)
        E, F = fmt(x.w)
        if op in ('fptoui', 'fptosi'):
            r, ok = ie.to_int(x, E, F, w, op == 'fptosi')
            eng.oblige(st, 'conversion', 'floating value fits the integer in %s' % op, ok)
            return r
        if op in ('fpext', 'fptrunc'):
            return ie.convert(x, E, F, *fmt(w))
        raise Unsupported('cast ' + op)


def _un(f):
    def g(eng, st, a):
        return f(a[0], *fmt(a[0].w))
    return g


def _ldexp(eng, st, a):
    return ie.ldexp(a[0], a[1], *fmt(a[0].w))


def _frexp(eng, st, a):
    m, e = ie.frexp(a[0], *fmt(a[0].w))
    eng.store(st, ('i', 32), e, a[1])
    return m


def _is_fpclass(eng, st, a):
    """llvm.is.fpclass"""
    E, F = fmt(a[0].w)
    x = ie.U(a[0], E, F)
    q = tm.msb(x.f)
    nrm = tm.andl(x.finite, tm.not_(x.e0))
    ns = tm.not_(x.s)
    cl = [tm.and_(x.nan, tm.not_(q)), tm.and_(x.nan, q), tm.and_(x.inf, x.s), tm.and_(nrm, x.s), tm.and_(x.sub, x.s), tm.and_(x.zero, x.s),
          tm.and_(x.zero, ns), tm.and_(x.sub, ns), tm.and_(nrm, ns), tm.and_(x.inf, ns)]
    m = a[1].a[0]
    return tm.orl(*[c for i, c in enumerate(cl) if m >> i & 1])


def models():
    m = {'fp': FPU(), 'llvm.is.fpclass.f64': _is_fpclass, 'llvm.is.fpclass.f32': _is_fpclass}
    for n, f in (('round', _un(ie.round_away)), ('trunc', _un(ie.trunc_)), ('floor', _un(ie.floor_)), ('ceil', _un(ie.ceil_)), ('ldexp', _ldexp), ('frexp', _frexp)):
        m[n] = f
        m[n + 'f'] = f
        m['llvm.%s.f64' % n] = f
        m['llvm.%s.f32' % n] = f
    m['_ZSt5roundf'] = m['round']
    return m
