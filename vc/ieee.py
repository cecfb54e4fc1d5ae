"""IEEE 754 binary formats as bit-vector terms: the meaning of the encodings and of the operations.

An encoding of format (E,F) is [sign][E exponent bits][F fraction bits]; subnormals are numbers.
All operations round to nearest, ties to even.  Checked against exact rational arithmetic and the
host's own arithmetic by vc/oracle.py."""
from . import terms as tm
from .terms import const, zext, sext, ext, cat, ite, eq, ne, and_, or_, not_, xor, add, sub, ult, ule, slt, sle, andl, orl, implies
from .spec import clz_norm

FMT = {32: (8, 23), 64: (11, 52), 16: (5, 10)}


def bias(E):
    return (1 << (E - 1)) - 1


class U:
    """an encoding taken apart; sig/exp: normalised significand (F+1 bits, top bit set) and unbiased
    exponent of a finite non-zero value"""

    def __init__(self, x, E, F):
        self.E, self.F, self.x = E, F, x
        self.s, self.e, self.f = tm.bit(x, E + F), ext(x, E + F - 1, F), ext(x, F - 1, 0)
        e0, e1 = eq(self.e, const(0, E)), eq(self.e, const((1 << E) - 1, E))
        f0 = eq(self.f, const(0, F))
        self.e0 = e0
        self.zero, self.sub = and_(e0, f0), and_(e0, not_(f0))
        self.inf, self.nan = and_(e1, f0), and_(e1, not_(f0))
        self.finite = not_(e1)

    def norm(self):
        E, F = self.E, self.F
        we = E + 3
        n, amt = clz_norm(self.f)
        nsub = cat(n, const(0, 1))                       # subnormal: shift left by amt+1
        esub = sub(const(-bias(E), we), zext(amt, we)) if amt.w < we else sub(const(-bias(E), we), tm.trunc(amt, we))
        sig = ite(self.e0, nsub, cat(const(1, 1), self.f))
        exp = ite(self.e0, esub, sub(zext(self.e, we), const(bias(E), we)))
        return sig, exp

    def fixed(self):
        """significand without normalisation: value = sig * 2^(max(e,1)-bias-F)"""
        return cat(not_(self.e0), self.f), ite(self.e0, const(1, self.E), self.e)


def qnan(E, F):
    return const((((1 << E) - 1) << F) | (1 << (F - 1)), E + F + 1)


def inf(s, E, F):
    return cat(s, const((1 << E) - 1, E), const(0, F))


def zero(s, E, F):
    return cat(s, const(0, E + F))


def round_pack(sign, sig, exp, E, F, sticky=None, subcase=None):
    """sig: top bit set, value sig*2^(exp-(w-1)), exp signed.  subcase: None, False (known exp >= emin)"""
    w = sig.w
    if w < F + 3:
        sig = cat(sig, const(0, F + 3 - w))
        w = F + 3
    st = ne(ext(sig, w - 3 - F, 0), const(0, w - 2 - F))
    if sticky is not None:
        st = or_(st, sticky)
    t = cat(ext(sig, w - 1, w - 2 - F), st)              # F+1 bits, round bit, sticky bit
    tw = F + 3
    we = max(exp.w, E) + 2
    e = add(sext(exp, we), const(bias(E), we))           # biased
    low = sle(e, const(0, we))
    if subcase is False:
        low = tm.false()
    sh = sub(const(1, we), e)                            # shift when low
    k = tw.bit_length()
    big = ult(const(tw, we), sh)
    shk = ite(big, const(tw, k), tm.trunc(sh, k) if we >= k else zext(sh, k))
    m = tm.lshr(cat(t, const(0, tw)), zext(shk, 2 * tw) if k <= 2 * tw else shk)
    tsub = ext(m, 2 * tw - 1, tw)
    tsub = or_(tsub, zext(ne(ext(m, tw - 1, 0), const(0, tw)), tw))
    t = ite(low, tsub, t)
    ef = ite(low, const(0, we), e)
    top, r, st = ext(t, tw - 1, 2), tm.bit(t, 1), tm.bit(t, 0)
    inc = and_(r, or_(st, tm.bit(top, 0)))
    # normal: (ef-1)*2^F + top ; subnormal: top
    eb = ite(low, const(0, we), sub(ef, const(1, we)))
    tot = add(add(cat(eb, const(0, F)), zext(top, we + F)), zext(inc, we + F))
    over = sle(const((1 << E) - 1, we), ext(tot, we + F - 1, F))
    return ite(over, inf(sign, E, F), cat(sign, ext(tot, E + F - 1, 0)))


def round_int(sign, mag, exp, E, F, sticky=None):
    """round mag*2^exp, mag nonzero"""
    sig, amt = clz_norm(mag)
    we = max(exp.w, amt.w + 1, mag.w.bit_length() + 1) + 1
    e = sub(add(sext(exp, we), const(mag.w - 1, we)), zext(amt, we))
    return round_pack(sign, sig, e, E, F, sticky)


def _nan(r, c, E, F):
    return ite(c, qnan(E, F), r)


def order(x, y):
    """magnitude order for an addition: (sL, sS, eL, d, signL, opposite)"""
    sx, ex = x.fixed()
    sy, ey = y.fixed()
    d = sub(zext(ex, x.E + 1), zext(ey, x.E + 1))
    swap = or_(ult(ex, ey), and_(eq(ex, ey), ult(sx, sy)))
    d = ite(swap, sub(zext(ey, x.E + 1), zext(ex, x.E + 1)), d)
    return ite(swap, sy, sx), ite(swap, sx, sy), ite(swap, ey, ex), tm.trunc(d, x.E), ite(swap, y.s, x.s), xor(x.s, y.s)


def add_(a, b, E, F, dcase=None):
    x, y = U(a, E, F), U(b, E, F)
    sL, sS, eL, d, sg, opp = order(x, y)
    G = F + 3
    A = cat(const(0, 1), sL, const(0, G + 1))
    base = cat(const(0, 1), sS, const(0, G + 1))
    w = A.w
    jam = zext(ne(sS, const(0, F + 1)), w)
    if dcase == 'far':
        B = jam
    elif dcase is not None:
        B = tm.lshrc(base, dcase)
    else:
        B = ite(ult(const(G, E), d), jam, tm.lshr(base, zext(d, w) if d.w < w else d))
    S = ite(opp, sub(A, B), add(A, B))
    we = E + 4
    e = sub(zext(eL, we), const(bias(E) + F + G + 1, we))
    r = round_int(sg, S, e, E, F)
    r = ite(eq(S, const(0, w)), zero(and_(x.s, y.s), E, F), r)
    r = ite(y.inf, inf(y.s, E, F), r)
    r = ite(x.inf, inf(x.s, E, F), r)
    return _nan(r, orl(x.nan, y.nan, andl(x.inf, y.inf, opp)), E, F)


def neg(a):
    return xor(a, const(1 << (a.w - 1), a.w))


def mul_(a, b, E, F, sub_ok=True):
    x, y = U(a, E, F), U(b, E, F)
    sx, ex = x.norm()
    sy, ey = y.norm()
    s = xor(x.s, y.s)
    p = tm.mulx(sx, sy)
    top = tm.msb(p)
    sig = ite(top, p, cat(tm.trunc(p, p.w - 1), const(0, 1)))
    we = E + 5
    e = add(add(sext(ex, we), sext(ey, we)), zext(top, we))
    r = round_pack(s, sig, e, E, F)
    r = ite(or_(x.zero, y.zero), zero(s, E, F), r)
    r = ite(or_(x.inf, y.inf), inf(s, E, F), r)
    return _nan(r, orl(x.nan, y.nan, and_(x.inf, y.zero), and_(x.zero, y.inf)), E, F)


def div_(a, b, E, F, hint=None):
    x, y = U(a, E, F), U(b, E, F)
    sx, ex = x.norm()
    sy, ey = y.norm()
    s = xor(x.s, y.s)
    if hint is None:
        m = F + 4
        w = F + 1 + m
        A, B = tm.shlc(zext(sx, w), m - 1), zext(sy, w)
        q = tm.trunc(tm.udiv(A, B), m)
        st = ne(tm.urem(A, B), const(0, w))
    else:
        q, st = hint
        m = q.w
    top = tm.msb(q)
    sig = ite(top, q, cat(tm.trunc(q, m - 1), const(0, 1)))
    we = E + 5
    e = sub(sub(sext(ex, we), sext(ey, we)), zext(not_(top), we))
    r = round_pack(s, sig, e, E, F, st)
    r = ite(or_(x.zero, y.inf), zero(s, E, F), r)
    r = ite(or_(x.inf, y.zero), inf(s, E, F), r)
    return _nan(r, orl(x.nan, y.nan, and_(x.inf, y.inf), and_(x.zero, y.zero)), E, F)


def key(x):
    """signed key monotone in the value (not for NaN)"""
    m = zext(tm.trunc(x.x, x.E + x.F), x.E + x.F + 1)
    return ite(x.s, tm.neg(m), m)


def cmp_(op, a, b, E, F):
    x, y = U(a, E, F), U(b, E, F)
    ka, kb = key(x), key(y)
    r = {'eq': lambda: eq(ka, kb), 'lt': lambda: slt(ka, kb), 'le': lambda: sle(ka, kb), 'gt': lambda: slt(kb, ka),
         'ge': lambda: sle(kb, ka), 'ne': lambda: ne(ka, kb)}[op]()
    nan = or_(x.nan, y.nan)
    return or_(nan, r) if op == 'ne' else and_(not_(nan), r)


def from_uint(v, E, F, sign=None):
    sign = tm.false() if sign is None else sign
    r = round_int(sign, v, const(0, max(E, v.w.bit_length()) + 3), E, F)
    return ite(eq(v, const(0, v.w)), zero(tm.false(), E, F), r)


def from_sint(v, E, F):
    s = tm.msb(v)
    return from_uint(ite(s, tm.neg(v), v), E, F, s)


def to_int(a, E, F, w, signed):
    """(value truncated towards zero on w bits, valid)"""
    x = U(a, E, F)
    sg, ex = x.fixed()
    we = max(E + 2, w.bit_length() + 2)
    e = sub(zext(ex, we), const(bias(E), we))            # value = sg * 2^(e-F)
    W = w + F + 2
    # integer part: sg << e >> F for 0 <= e <= w
    k = max(1, (w + 1).bit_length())
    small = tm.msb(e)
    large = and_(not_(small), slt(const(w, we), e))
    sh = ite(or_(small, large), const(0, k), tm.trunc(e, k))
    v = tm.shl(zext(sg, W), zext(sh, W))
    ip = ext(v, W - 1, F)                                # w+2 bits
    ip = ite(small, const(0, ip.w), ip)
    z = const(0, ip.w)
    if signed:
        lim = const(1 << (w - 1), ip.w)
        ok = ite(x.s, ule(ip, lim), ult(ip, lim))
    else:
        ok = ite(x.s, eq(ip, z), ult(ip, const(1 << w, ip.w)))
    ok = andl(x.finite, not_(large), ok)
    r = tm.trunc(ip, w)
    return ite(x.s, tm.neg(r), r), ok


def ldexp(a, n, E, F):
    """a * 2^n, n a signed term"""
    x = U(a, E, F)
    sig, ex = x.norm()
    we = max(n.w, E + 3) + 1
    r = round_pack(x.s, sig, add(sext(ex, we), sext(n, we)), E, F)
    return ite(or_(x.zero, not_(x.finite)), a, r)


def frexp(a, E, F):
    """(fraction in [1/2,1) with the sign, exponent as a 32-bit term); zero: (a,0); inf/NaN: (a, None)"""
    x = U(a, E, F)
    sig, ex = x.norm()
    m = cat(x.s, const(bias(E) - 1, E), ext(sig, F - 1, 0))
    e = add(sext(ex, 32), const(1, 32))
    keep = or_(x.zero, not_(x.finite))
    return ite(keep, a, m), ite(keep, const(0, 32), e)


def round_away(a, E, F):
    """C round(): nearest integer, halves away from zero"""
    x = U(a, E, F)
    r = a
    # value below 2^F: add half an ulp of the integer, truncate
    for e in range(-1, F):
        # exponent e: integer bits above F-e
        c = eq(x.e, const(bias(E) + e, E))
        k = F - e
        body = cat(const(0, 1), x.e, x.f)
        t = add(body, const(1 << (k - 1), body.w)) if k - 1 <= F else body
        if k <= F:
            t = cat(ext(t, body.w - 1, k), const(0, k))
            r = ite(c, cat(x.s, tm.trunc(t, E + F)), r)
        else:                                            # 1/2 <= |x| < 1: one
            r = ite(c, cat(x.s, const(bias(E), E), const(0, F)), r)
    return ite(ult(x.e, const(bias(E) - 1, E)), zero(x.s, E, F), r)


def trunc_(a, E, F):
    x = U(a, E, F)
    r = a
    for e in range(0, F):
        k = F - e
        r = ite(eq(x.e, const(bias(E) + e, E)), cat(ext(a, a.w - 1, k), const(0, k)), r)
    return ite(ult(x.e, const(bias(E), E)), zero(x.s, E, F), r)


def floor_(a, E, F):
    t = trunc_(a, E, F)
    x = U(a, E, F)
    one = const((1 << (E + F)) | (bias(E) << F), E + F + 1)   # -1
    return ite(andl(x.s, ne(t, a), not_(x.nan)), add_(t, one, E, F), t)


def ceil_(a, E, F):
    return neg(floor_(neg(a), E, F))


def convert(a, E, F, E2, F2):
    x = U(a, E, F)
    sig, ex = x.norm()
    r = round_pack(x.s, sig, ex, E2, F2)
    r = ite(x.zero, zero(x.s, E2, F2), r)
    r = ite(x.inf, inf(x.s, E2, F2), r)
    return ite(x.nan, qnan(E2, F2), r)
