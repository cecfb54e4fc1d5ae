"""Specification functions: what the operations mean, written as bit-vector terms.

Independent of the code in /repo.  A native ("flopoco") number of format (E,F) is
[2 flags: 0 zero, 1 normal, 2 infinity, 3 NaN][sign][E exponent bits][F fraction bits]
with bias 2^(E-1)-1, value (-1)^s * 2^(e-bias) * (1 + f/2^F) for every e in 0..2^E-1.
Every spec here is checked against exact rational arithmetic by vc/oracle.py.
"""
from . import terms as tm
from .terms import const, zext, sext, ext, cat, ite, eq, ne, and_, or_, not_, xor, add, sub, ult, ule, slt, sle, andl, orl, implies

ZERO, NORM, INF, NAN = 0, 1, 2, 3


class FP:
    """a native number as field terms"""
    __slots__ = ('E', 'F', 'flags', 's', 'e', 'f')

    def __init__(self, E, F, flags, s, e, f):
        self.E, self.F, self.flags, self.s, self.e, self.f = E, F, flags, s, e, f

    def is_(self, k):
        return eq(self.flags, const(k, 2))

    def bits(self):
        return cat(self.flags, self.s, self.e, self.f)


def unpack(x, E, F):
    assert x.w == E + F + 3
    return FP(E, F, ext(x, E + F + 2, E + F + 1), tm.bit(x, E + F), ext(x, E + F - 1, F), ext(x, F - 1, 0))


def bias(E):
    return (1 << (E - 1)) - 1


def fsel(c, a, b):
    return FP(a.E, a.F, ite(c, a.flags, b.flags), ite(c, a.s, b.s), ite(c, a.e, b.e), ite(c, a.f, b.f))


def fconst(E, F, flags, s=None, e=0, f=0):
    if s is None:
        s = const(0, 1)
    return FP(E, F, const(flags, 2), s, const(e, E), const(f, F))


def same(a, b):
    """equal as numbers: same kind; same sign unless NaN; same exponent and fraction if normal"""
    return andl(eq(a.flags, b.flags),
                or_(a.is_(NAN), eq(a.s, b.s)),
                implies(a.is_(NORM), and_(eq(a.e, b.e), eq(a.f, b.f))))


def same_signed(a, b):
    """same(a, b), and the sign of a NaN counts too"""
    return and_(same(a, b), eq(a.s, b.s))


def clz_norm(x):
    """(x shifted left so that its top bit is set, shift amount as a term); x == 0 gives amount >= w-1"""
    w = x.w
    n = max(1, (w - 1).bit_length())
    amt = []
    cur = x
    for i in reversed(range(n)):
        k = 1 << i
        if k >= w:
            amt.append(const(0, 1))
            continue
        z = eq(ext(cur, w - 1, w - k), const(0, k))
        cur = ite(z, cat(ext(cur, w - 1 - k, 0), const(0, k)), cur)
        amt.append(z)
    return cur, cat(*amt)


def round_norm(sign, sig, exp, E, F, sticky=None):
    """sig: w >= F+2 bits with the top bit set, value sig*2^(exp-(w-1)), exp signed (unbiased).
    sticky: extra nonzero part below sig.  Round to nearest even with unbounded exponent, then
    overflow to infinity, underflow to zero."""
    w = sig.w
    if w < F + 2:
        sig = cat(sig, const(0, F + 2 - w))
        w = F + 2
    top = ext(sig, w - 1, w - 1 - F)          # F+1 bits
    r = tm.bit(sig, w - 2 - F)
    st = ne(ext(sig, w - 3 - F, 0), const(0, w - 2 - F)) if w - 2 - F > 0 else const(0, 1)
    if sticky is not None:
        st = or_(st, sticky)
    inc = and_(r, or_(st, tm.bit(top, 0)))
    t = add(zext(top, F + 2), zext(inc, F + 2))
    carry = tm.bit(t, F + 1)
    frac = ext(t, F - 1, 0)                   # all zero when carry
    we = max(exp.w, E) + 2
    e = add(add(sext(exp, we), const(bias(E), we)), zext(carry, we))
    under = tm.msb(e)
    over = and_(not_(under), ne(ext(e, we - 1, E), const(0, we - E)))
    flags = ite(under, const(ZERO, 2), ite(over, const(INF, 2), const(NORM, 2)))
    return FP(E, F, flags, sign, ext(e, E - 1, 0), frac)


def round_int(sign, mag, exp, E, F, sticky=None):
    """round mag * 2^exp (mag nonzero)"""
    sig, amt = clz_norm(mag)
    we = max(exp.w, amt.w + 1, mag.w.bit_length() + 1) + 1
    e = sub(add(sext(exp, we), const(mag.w - 1, we)), zext(amt, we))
    return round_norm(sign, sig, e, E, F, sticky)


def sig_exp(x, W, we):
    """significand (1.f aligned to W fraction bits) and unbiased exponent of a normal"""
    s = cat(const(1, 1), x.f, const(0, W - x.F)) if W > x.F else cat(const(1, 1), x.f)
    e = sub(zext(x.e, we), const(bias(x.E), we))
    return s, e


def add_exact_order(x, y, E, F):
    """widen both to a common shape and order by magnitude: (L, S, d) with d = eL-eS >= 0"""
    we = max(x.E, y.E) + 2
    W = max(x.F, y.F)
    sx, ex = sig_exp(x, W, we)
    sy, ey = sig_exp(y, W, we)
    d = sub(ex, ey)
    swap = or_(slt(ex, ey), and_(eq(ex, ey), ult(sx, sy)))
    d = ite(swap, sub(ey, ex), d)
    eL = ite(swap, ey, ex)
    sL, sS = ite(swap, sy, sx), ite(swap, sx, sy)
    signL = ite(swap, y.s, x.s)
    return sL, sS, eL, d, signL, W


def add_spec(x, y, E, F, dcase=None):
    """correctly rounded sum into (E,F); dcase: assume the exponent distance d equals this
    constant ('far': d > W+3)"""
    return special_add(x, y, add_normal(x, y, E, F, dcase), E, F)


def add_normal(x, y, E, F, dcase=None):
    """the same for normal operands; F may be less than their fraction widths"""
    sL, sS, eL, d, signL, W = add_exact_order(x, y, E, F)
    G = W + 3
    opp = xor(x.s, y.s)
    A = cat(const(0, 1), sL, const(0, G + 1))
    base = cat(const(0, 1), sS, const(0, G + 1))
    w = A.w
    far = ult(const(G, d.w), d)
    if dcase == 'far':
        B = const(1, w)
    elif dcase is not None:
        B = tm.lshrc(base, dcase)
    else:
        B = ite(far, const(1, w), tm.lshr(base, d) if d.w >= w.bit_length() else tm.lshr(base, zext(d, w.bit_length())))
    S = ite(opp, sub(A, B), add(A, B))
    isz = eq(S, const(0, w))
    exp = sub(eL, const(W + G + 1, eL.w + 4)) if False else sub(sext(eL, eL.w + 8), const(W + G + 1, eL.w + 8))
    n = round_int(signL, S, exp, E, F)
    return fsel(isz, fconst(E, F, ZERO), n)


def widen(x, E, F):
    """exact value of x in a wider format"""
    if x.E == E and x.F == F:
        return x
    e = add(zext(x.e, E), const(bias(E) - bias(x.E), E))
    f = cat(x.f, const(0, F - x.F)) if F > x.F else x.f
    return FP(E, F, x.flags, x.s, e, f)


def special_add(x, y, n, E, F):
    """n: result for two normals"""
    nan = orl(x.is_(NAN), y.is_(NAN), andl(x.is_(INF), y.is_(INF), xor(x.s, y.s)))
    r = n
    xz, yz = x.is_(ZERO), y.is_(ZERO)
    wx, wy = widen(x, E, F), widen(y, E, F)
    r = fsel(xz, wy, r)
    r = fsel(yz, wx, r)
    r = fsel(and_(xz, yz), fconst(E, F, ZERO, and_(x.s, y.s)), r)
    r = fsel(y.is_(INF), fconst(E, F, INF, y.s), r)
    r = fsel(x.is_(INF), fconst(E, F, INF, x.s), r)
    r = fsel(nan, fconst(E, F, NAN), r)
    return r


# ---------------------------------------------------------------- multiplication
def mul_normal(x, y, E, F):
    """rounded (or exact) product of two normals; the significand product is one shared term"""
    sx, sy = cat(const(1, 1), x.f), cat(const(1, 1), y.f)
    p = tm.mulx(sx, sy)
    top = tm.msb(p)
    sig = ite(top, p, cat(tm.trunc(p, p.w - 1), const(0, 1)))
    we = max(x.E, y.E) + 3
    e = add(sub(zext(x.e, we), const(bias(x.E), we)), sub(zext(y.e, we), const(bias(y.E), we)))
    e = add(e, zext(top, we))
    return round_norm(xor(x.s, y.s), sig, e, E, F)


def special_mul(x, y, n, E, F):
    s = xor(x.s, y.s)
    xz, yz, xi, yi = x.is_(ZERO), y.is_(ZERO), x.is_(INF), y.is_(INF)
    nan = orl(x.is_(NAN), y.is_(NAN), and_(xz, yi), and_(xi, yz))
    r = n
    r = fsel(or_(xz, yz), fconst(E, F, ZERO, s), r)
    r = fsel(or_(xi, yi), fconst(E, F, INF, s), r)
    return fsel(nan, fconst(E, F, NAN), r)


def mul_spec(x, y, E, F):
    return special_mul(x, y, mul_normal(x, y, E, F), E, F)


# ---------------------------------------------------------------- division
def div_normal(x, y, E, F, hint=None):
    """rounded quotient of two normals of the same fraction width; hint: (quotient floor(sx*2^(m-1)/sy)
    on m bits, remainder nonzero) when a lemma gives them, else they are computed"""
    assert x.F == y.F
    if hint is None:
        m = F + 3
        sx, sy = cat(const(1, 1), x.f), cat(const(1, 1), y.f)
        w = x.F + 1 + m
        a, b = tm.shlc(zext(sx, w), m - 1), zext(sy, w)
        q = tm.trunc(tm.udiv(a, b), m)
        st = ne(tm.urem(a, b), const(0, w))
    else:
        q, st = hint
        m = q.w
    top = tm.msb(q)
    sig = ite(top, q, cat(tm.trunc(q, m - 1), const(0, 1)))
    we = max(x.E, y.E) + 3
    e = sub(sub(zext(x.e, we), const(bias(x.E), we)), sub(zext(y.e, we), const(bias(y.E), we)))
    e = sub(e, zext(not_(top), we))
    return round_norm(xor(x.s, y.s), sig, e, E, F, st)


def special_div(x, y, n, E, F):
    s = xor(x.s, y.s)
    xz, yz, xi, yi = x.is_(ZERO), y.is_(ZERO), x.is_(INF), y.is_(INF)
    nan = orl(x.is_(NAN), y.is_(NAN), and_(xz, yz), and_(xi, yi))
    r = n
    r = fsel(or_(xz, yi), fconst(E, F, ZERO, s), r)
    r = fsel(or_(xi, yz), fconst(E, F, INF, s), r)
    return fsel(nan, fconst(E, F, NAN), r)


def div_spec(x, y, E, F, hint=None):
    W = max(x.F, y.F)
    E2 = max(x.E, y.E)
    return special_div(x, y, div_normal(widen(x, x.E, W), widen(y, y.E, W), E, F, hint), E, F)


# ---------------------------------------------------------------- conversion, ordering, neighbours
def convert_spec(x, E, F):
    """x rounded into (E,F)"""
    we = max(x.E, E) + 3
    s, e = sig_exp(x, x.F, we)
    n = round_norm(x.s, s, e, E, F)
    r = fsel(x.is_(NORM), n, fconst(E, F, ZERO, x.s))
    r = FP(E, F, ite(x.is_(NORM), n.flags, x.flags), x.s, r.e, r.f)
    return r


def order_key(x, E, F):
    """two's-complement key, monotone in the value and equal exactly for equal values (not for NaN);
    the format (E,F) must hold x exactly"""
    w = widen(x, E, F)
    mag = ite(x.is_(NORM), add(zext(cat(w.e, w.f), E + F + 2), const(1, E + F + 2)),
              ite(x.is_(INF), const((1 << (E + F)) + 1, E + F + 2), const(0, E + F + 2)))
    return ite(x.s, tm.neg(mag), mag)


def compare_spec(op, x, y):
    E, F = max(x.E, y.E), max(x.F, y.F)
    a, b = order_key(x, E, F), order_key(y, E, F)
    nan = or_(x.is_(NAN), y.is_(NAN))
    r = {'eq': lambda: eq(a, b), 'ne': lambda: ne(a, b), 'lt': lambda: slt(a, b), 'le': lambda: sle(a, b),
         'gt': lambda: slt(b, a), 'ge': lambda: sle(b, a)}[op]()
    return or_(nan, r) if op == 'ne' else and_(not_(nan), r)


def step_pos(x):
    """position of x in -inf < ... < -min < -0 < +0 < min < ... < max < inf: signed, consecutive"""
    w = x.E + x.F + 2
    mag = ite(x.is_(NORM), add(zext(cat(x.e, x.f), w), const(1, w)),
              ite(x.is_(INF), const((1 << (x.E + x.F)) + 1, w), const(0, w)))
    return ite(x.s, not_(mag), mag)      # -0 is -1, +0 is 0


def classes(x):
    return [x.is_(k) for k in range(4)]


class IEEE:
    """an IEEE encoding as field terms"""

    def __init__(self, x, E, F):
        assert x.w == E + F + 1
        self.E, self.F, self.x = E, F, x
        self.s, self.e, self.f = tm.bit(x, E + F), ext(x, E + F - 1, F), ext(x, F - 1, 0)
        e0, e1 = eq(self.e, const(0, E)), eq(self.e, const((1 << E) - 1, E))
        f0 = eq(self.f, const(0, F))
        self.zero, self.sub = and_(e0, f0), and_(e0, not_(f0))
        self.inf, self.nan = and_(e1, f0), and_(e1, not_(f0))
        self.norm = not_(or_(e0, e1))
