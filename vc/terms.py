"""Hash-consed bit-vector terms with simplification.

Every term is a bit-vector (width >= 1); Booleans are width-1 vectors.
Operators: c const, v variable, add sub mulx udiv urem and or xor not
shl lshr ashr (variable amount) eq ult slt ite cat ext.
`mulx` is the full product: width = sum of operand widths.
Known-zero / known-one masks are computed eagerly (fields kz, ko).
"""
import sys
sys.setrecursionlimit(200000)

_tab = {}
_cnt = [0]


class T:
    __slots__ = ('op', 'w', 'a', 'id', 'kz', 'ko')

    def __repr__(self):
        return show(self, 4)


def show(t, d=3):
    if t.op == 'c':
        return '%d:%d' % (t.a[0], t.w)
    if t.op == 'v':
        return t.a[0]
    if d == 0:
        return '..#%d' % t.id
    if t.op == 'ext':
        return '%s[%d:%d]' % (show(t.a[0], d - 1), t.a[1], t.a[2])
    return '%s(%s)' % (t.op, ','.join(show(x, d - 1) if isinstance(x, T) else str(x) for x in t.a))


def reset():
    """forget all terms (only between independent tasks)"""
    _tab.clear()
    _extmemo.clear()


def _mk(op, w, a, kz=0, ko=0):
    key = (op, w) + tuple(x.id if isinstance(x, T) else ('k', x) for x in a)
    t = _tab.get(key)
    if t is not None:
        return t
    M = (1 << w) - 1
    if op != 'c' and (kz | ko) == M:
        return const(ko, w)
    t = T()
    t.op = op
    t.w = w
    t.a = a
    t.kz = kz
    t.ko = ko
    _cnt[0] += 1
    t.id = _cnt[0]
    _tab[key] = t
    return t


def const(v, w):
    M = (1 << w) - 1
    v &= M
    key = ('c', w, v)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = 'c'
        t.w = w
        t.a = (v,)
        t.kz = M & ~v
        t.ko = v
        _cnt[0] += 1
        t.id = _cnt[0]
        _tab[key] = t
    return t


def var(name, w):
    return _mk('v', w, (name,))


_fresh = [0]


def fresh(prefix, w):
    _fresh[0] += 1
    return var('%s!%d' % (prefix, _fresh[0]), w)


TRUE = FALSE = None


def true():
    return const(1, 1)


def false():
    return const(0, 1)


def isc(t):
    return t.op == 'c'


def bit_len_max(t):
    """number of bits not known zero at the top"""
    M = (1 << t.w) - 1
    return (M & ~t.kz).bit_length()


# ---------------------------------------------------------------- structure
def parts(t):
    """list of concat parts, most significant first"""
    if t.op == 'cat':
        return list(t.a)
    return [t]


def cat(*xs):
    ps = []
    for x in xs:
        if x is None:
            continue
        if x.op == 'cat':
            ps.extend(x.a)
        else:
            ps.append(x)
    out = []
    for p in ps:
        if out:
            q = out[-1]
            if q.op == 'c' and p.op == 'c':
                out[-1] = const((q.a[0] << p.w) | p.a[0], q.w + p.w)
                continue
            if q.op == 'ext' and p.op == 'ext' and q.a[0] is p.a[0] and q.a[2] == p.a[1] + 1:
                out[-1] = ext(q.a[0], q.a[1], p.a[2])
                continue
        out.append(p)
    if len(out) == 1:
        return out[0]
    # merge may enable full-cover: ext(x,w-1,0) returns x itself
    w = 0
    kz = ko = 0
    for p in out:
        w += p.w
        kz = (kz << p.w) | p.kz
        ko = (ko << p.w) | p.ko
    return _mk('cat', w, tuple(out), kz, ko)


def zext(t, w):
    assert w >= t.w, (w, t.w)
    if w == t.w:
        return t
    return cat(const(0, w - t.w), t)


def sext(t, w):
    assert w >= t.w
    if w == t.w:
        return t
    s = ext(t, t.w - 1, t.w - 1)
    if s.op == 'c':
        return cat(const(-s.a[0], w - t.w), t)
    return cat(ite(s, const(-1, w - t.w), const(0, w - t.w)), t)


def trunc(t, w):
    return ext(t, w - 1, 0)


_extmemo = {}


def ext(t, hi, lo):
    if hi - lo + 1 == t.w:
        return t
    assert 0 <= lo <= hi < t.w, (hi, lo, t.w)
    key = (t.id, hi, lo)
    r = _extmemo.get(key)
    if r is None:
        r = _extmemo[key] = _ext(t, hi, lo)
    return r


def _ext(t, hi, lo):
    w = hi - lo + 1
    op = t.op
    if op == 'c':
        return const(t.a[0] >> lo, w)
    m = (1 << w) - 1
    kz = (t.kz >> lo) & m
    ko = (t.ko >> lo) & m
    if (kz | ko) == m:
        return const(ko, w)
    if op == 'ext':
        return ext(t.a[0], hi + t.a[2], lo + t.a[2])
    if op == 'cat':
        out = []
        pos = t.w
        for p in t.a:
            top = pos - 1
            bot = pos - p.w
            pos = bot
            if top < lo or bot > hi:
                continue
            h = min(hi, top) - bot
            l = max(lo, bot) - bot
            out.append(ext(p, h, l))
        return cat(*out)
    if op in ('and', 'or', 'xor'):
        return _bw(op, [ext(x, hi, lo) for x in t.a])
    if op == 'not':
        return not_(ext(t.a[0], hi, lo))
    if op == 'ite':
        return ite(t.a[0], ext(t.a[1], hi, lo), ext(t.a[2], hi, lo))
    if lo == 0 and op in ('add', 'sub'):
        x, y = (trunc(z, w) for z in t.a)
        return add(x, y) if op == 'add' else sub(x, y)
    return _mk('ext', w, (t, hi, lo), kz, ko)


def not_(t):
    if t.op == 'c':
        return const(~t.a[0], t.w)
    if t.op == 'not':
        return t.a[0]
    if t.op == 'cat':
        return cat(*[not_(p) for p in t.a])
    if t.op == 'ite' and (t.a[1].op == 'c' or t.a[2].op == 'c'):
        return ite(t.a[0], not_(t.a[1]), not_(t.a[2]))
    return _mk('not', t.w, (t,), t.ko, t.kz)


def _bounds(t):
    """cut positions inside t (bit indexes of part boundaries)"""
    if t.op == 'cat':
        s = set()
        pos = 0
        for p in reversed(t.a[1:]):
            pos += p.w
            s.add(pos)
        return s
    if t.op == 'c':
        v = t.a[0]
        s = set()
        w = t.w
        x = v ^ (v >> 1)
        x &= (1 << (w - 1)) - 1
        while x:
            b = x & -x
            s.add(b.bit_length())
            x ^= b
        return s
    return set()


def _bw(op, xs):
    if len(xs) == 2:
        return {'and': and_, 'or': or_, 'xor': xor}[op](xs[0], xs[1])
    r = xs[0]
    for x in xs[1:]:
        r = _bw(op, [r, x])
    return r


def _kruns(t, maxr=6):
    """boundaries of maximal runs of known-constant bits"""
    k = t.kz | t.ko
    if k == 0:
        return set()
    return None


def _split_bw(f, x, y):
    """Split a bitwise op along concat boundaries when that simplifies."""
    if x.op not in ('cat', 'c') and y.op not in ('cat', 'c'):
        return None
    b = _bounds(x) | _bounds(y)
    if not b:
        return None
    if len(b) > 40:
        return None
    cuts = sorted(b)
    lo = 0
    ps = []
    ok = False
    for c in cuts + [x.w]:
        xs = ext(x, c - 1, lo)
        ys = ext(y, c - 1, lo)
        ps.append((xs, ys))
        if xs.op == 'c' or ys.op == 'c' or xs is ys:
            ok = True
        lo = c
    if not ok:
        return None
    return cat(*[f(p, q) for p, q in reversed(ps)])


def and_(x, y):
    if x.op == 'c':
        x, y = y, x
    M = (1 << x.w) - 1
    if y.op == 'c':
        if y.a[0] == 0:
            return y
        if y.a[0] == M:
            return x
        if x.op == 'c':
            return const(x.a[0] & y.a[0], x.w)
    if x is y:
        return x
    if (x.op == 'not' and x.a[0] is y) or (y.op == 'not' and y.a[0] is x):
        return const(0, x.w)
    if x.w == 1:
        # absorption
        if x.op == 'and' and (x.a[0] is y or x.a[1] is y):
            return x
        if y.op == 'and' and (y.a[0] is x or y.a[1] is x):
            return y
        if x.op == 'or' and (x.a[0] is y or x.a[1] is y):
            return y
        if y.op == 'or' and (y.a[0] is x or y.a[1] is x):
            return x
    else:
        s = _split_bw(and_, x, y)
        if s is not None:
            return s
    if x.id > y.id:
        x, y = y, x
    return _mk('and', x.w, (x, y), x.kz | y.kz, x.ko & y.ko)


def or_(x, y):
    if x.op == 'c':
        x, y = y, x
    M = (1 << x.w) - 1
    if y.op == 'c':
        if y.a[0] == 0:
            return x
        if y.a[0] == M:
            return y
        if x.op == 'c':
            return const(x.a[0] | y.a[0], x.w)
    if x is y:
        return x
    if (x.op == 'not' and x.a[0] is y) or (y.op == 'not' and y.a[0] is x):
        return const(-1, x.w)
    if x.w == 1:
        if x.op == 'or' and (x.a[0] is y or x.a[1] is y):
            return x
        if y.op == 'or' and (y.a[0] is x or y.a[1] is x):
            return y
        if x.op == 'and' and (x.a[0] is y or x.a[1] is y):
            return y
        if y.op == 'and' and (y.a[0] is x or y.a[1] is x):
            return x
    else:
        s = _split_bw(or_, x, y)
        if s is not None:
            return s
    if x.id > y.id:
        x, y = y, x
    return _mk('or', x.w, (x, y), x.kz & y.kz, x.ko | y.ko)


def xor(x, y):
    if x.op == 'c':
        x, y = y, x
    M = (1 << x.w) - 1
    if y.op == 'c':
        if y.a[0] == 0:
            return x
        if y.a[0] == M:
            return not_(x)
        if x.op == 'c':
            return const(x.a[0] ^ y.a[0], x.w)
    if x is y:
        return const(0, x.w)
    if x.op == 'not' and y.op == 'not':
        return xor(x.a[0], y.a[0])
    if x.op == 'not':
        return not_(xor(x.a[0], y))
    if y.op == 'not':
        return not_(xor(x, y.a[0]))
    if x.w > 1:
        s = _split_bw(xor, x, y)
        if s is not None:
            return s
    if x.id > y.id:
        x, y = y, x
    k = (x.kz | x.ko) & (y.kz | y.ko)
    v = (x.ko ^ y.ko) & k
    return _mk('xor', x.w, (x, y), k & ~v, v)


def andl(*xs):
    r = true()
    for x in xs:
        r = and_(r, x)
    return r


def orl(*xs):
    r = false()
    for x in xs:
        r = or_(r, x)
    return r


def implies(a, b):
    return or_(not_(a), b)


def ite(c, x, y):
    assert x.w == y.w, (x.w, y.w)
    assert c.w == 1
    if c.op == 'c':
        return x if c.a[0] else y
    if x is y:
        return x
    if c.op == 'not':
        return ite(c.a[0], y, x)
    if x.w == 1:
        if x.op == 'c':
            return or_(c, y) if x.a[0] else and_(not_(c), y)
        if y.op == 'c':
            return or_(not_(c), x) if y.a[0] else and_(c, x)
        if x is c:
            return or_(c, y)
        if y is c:
            return and_(c, x)
        if y.op == 'not' and y.a[0] is x:
            return not_(xor(c, x))
        if x.op == 'not' and x.a[0] is y:
            return xor(c, y)
    if x.op == 'ite' and x.a[0] is c:
        x = x.a[1]
    if y.op == 'ite' and y.a[0] is c:
        y = y.a[2]
    if x is y:
        return x
    if x.op == 'ite' and x.a[2] is y:
        return ite(and_(c, x.a[0]), x.a[1], y)
    if x.op == 'ite' and x.a[1] is y:
        return ite(and_(c, not_(x.a[0])), x.a[2], y)
    if y.op == 'ite' and y.a[1] is x:
        return ite(or_(c, y.a[0]), x, y.a[2])
    if y.op == 'ite' and y.a[2] is x:
        return ite(and_(not_(c), y.a[0]), y.a[1], x)
    # split along common concat structure
    if x.w > 1 and (x.op in ('cat', 'c')) and (y.op in ('cat', 'c')):
        bx = _bounds(x) if x.op == 'cat' else None
        by = _bounds(y) if y.op == 'cat' else None
        if bx is not None and by is not None:
            b = bx & by
            # also cut where both known
        elif bx is not None:
            b = bx
        elif by is not None:
            b = by
        else:
            b = set()
        if b:
            cuts = sorted(b)
            lo = 0
            out = []
            for cc in cuts + [x.w]:
                out.append(ite(c, ext(x, cc - 1, lo), ext(y, cc - 1, lo)))
                lo = cc
            return cat(*reversed(out))
    # strip common known leading zeros / trailing
    kz = x.kz & y.kz
    ko = x.ko & y.ko
    if kz and x.w > 1:
        M = (1 << x.w) - 1
        n = (M & ~kz).bit_length()
        if n == 0:
            return const(0, x.w)
        if n < x.w:
            return cat(const(0, x.w - n), ite(c, trunc(x, n), trunc(y, n)))
        nz = M & ~kz
        low = (nz & -nz).bit_length() - 1
        if low > 0:
            return cat(ite(c, ext(x, x.w - 1, low), ext(y, x.w - 1, low)), const(0, low))
    return _mk('ite', x.w, (c, x, y), kz, ko)


# ---------------------------------------------------------------- arithmetic
def _tz(t):
    """number of known trailing zeros"""
    M = (1 << t.w) - 1
    nz = M & ~t.kz
    if nz == 0:
        return t.w
    return (nz & -nz).bit_length() - 1


def add(x, y):
    w = x.w
    assert w == y.w
    if x.op == 'c' and y.op == 'c':
        return const(x.a[0] + y.a[0], w)
    if x.op == 'c':
        x, y = y, x
    if y.op == 'c':
        if y.a[0] == 0:
            return x
        # (a + c1) + c2
        if x.op == 'add' and x.a[1].op == 'c':
            return add(x.a[0], const(x.a[1].a[0] + y.a[0], w))
        if x.op == 'sub' and x.a[0].op == 'c':
            return sub(const(x.a[0].a[0] + y.a[0], w), x.a[1])
    if x.op == 'sub' and x.a[1] is y:
        return x.a[0]
    if y.op == 'sub' and y.a[1] is x:
        return y.a[0]
    if y.op == 'sub' and isc(y.a[0]) and y.a[0].a[0] == 0:
        return sub(x, y.a[1])
    if x.op == 'sub' and isc(x.a[0]) and x.a[0].a[0] == 0:
        return sub(y, x.a[1])
    if w == 1:
        return xor(x, y)
    # disjoint bits
    if (x.kz | y.kz) == (1 << w) - 1:
        return or_(x, y)
    # common trailing zeros of one operand: low part passes through
    tx, ty = _tz(x), _tz(y)
    t = max(tx, ty)
    if 0 < t < w:
        low = trunc(y, t) if tx >= t else trunc(x, t)
        return cat(add(ext(x, w - 1, t), ext(y, w - 1, t)), low)
    n = max(bit_len_max(x), bit_len_max(y)) + 1
    if n < w:
        return zext(add(trunc(x, n), trunc(y, n)), w)
    if y.op != 'c' and x.id > y.id:
        x, y = y, x
    return _mk('add', w, (x, y))


def sub(x, y):
    w = x.w
    assert w == y.w
    if y.op == 'c':
        return add(x, const(-y.a[0], w)) if x.op != 'c' else const(x.a[0] - y.a[0], w)
    if x is y:
        return const(0, w)
    if w == 1:
        return xor(x, y)
    if x.op == 'add' and x.a[0] is y:
        return x.a[1]
    if x.op == 'add' and x.a[1] is y:
        return x.a[0]
    if y.op == 'sub' and isc(y.a[0]) and y.a[0].a[0] == 0:
        return add(x, y.a[1])
    ty = _tz(y)
    if 0 < ty < w:
        return cat(sub(ext(x, w - 1, ty), ext(y, w - 1, ty)), trunc(x, ty))
    # both zero-extended: the result is a sign-extended narrow difference
    n = max(bit_len_max(x), bit_len_max(y)) + 1
    if n < w and n > 1:
        return sext(sub(trunc(x, n), trunc(y, n)), w)
    return _mk('sub', w, (x, y))


def neg(x):
    return sub(const(0, x.w), x)


def mulx(x, y):
    """full product, width x.w+y.w"""
    W = x.w + y.w
    if x.op == 'c' and y.op == 'c':
        return const(x.a[0] * y.a[0], W)
    nx, ny = bit_len_max(x), bit_len_max(y)
    if nx == 0 or ny == 0:
        return const(0, W)
    if nx < x.w or ny < y.w:
        return zext(mulx(trunc(x, nx), trunc(y, ny)), W)
    tx, ty = _tz(x), _tz(y)
    if tx or ty:
        p = mulx(ext(x, x.w - 1, tx), ext(y, y.w - 1, ty))
        return cat(p, const(0, tx + ty))
    if x.op == 'c':
        x, y = y, x
    if y.w == 1:
        if y.op == 'c':
            return zext(x, W)
        return zext(ite(y, x, const(0, x.w)), W)
    if x.w == 1:
        return zext(ite(x, y, const(0, y.w)), W)
    if y.op == 'c':
        v = y.a[0]
        if bin(v).count('1') <= 3:
            r = const(0, W)
            i = 0
            while v:
                if v & 1:
                    r = add(r, shlc(zext(x, W), i))
                v >>= 1
                i += 1
            return r
    if y.op != 'c' and x.id > y.id:
        x, y = y, x
    # known trailing one & bounds
    return _mk('mulx', W, (x, y))


def mul(x, y):
    assert x.w == y.w
    return trunc(mulx(x, y), x.w)


def udiv(x, y):
    w = x.w
    if y.op == 'c':
        v = y.a[0]
        if v == 1:
            return x
        if v and v & (v - 1) == 0:
            k = v.bit_length() - 1
            return zext(ext(x, w - 1, k), w)
        if v == 0:
            return const(0, w)      # total semantics; division by zero is an obligation of its own
        if x.op == 'c':
            return const(x.a[0] // v, w)
    n = max(bit_len_max(x), bit_len_max(y))
    if 0 < n < w:
        return zext(udiv(trunc(x, n), trunc(y, n)), w)
    return _mk('udiv', w, (x, y))


def urem(x, y):
    w = x.w
    if y.op == 'c':
        v = y.a[0]
        if v and v & (v - 1) == 0:
            k = v.bit_length() - 1
            return const(0, w) if k == 0 else zext(trunc(x, k), w)
        if v == 0:
            return x
        if x.op == 'c':
            return const(x.a[0] % v, w)
    n = max(bit_len_max(x), bit_len_max(y))
    if 0 < n < w:
        return zext(urem(trunc(x, n), trunc(y, n)), w)
    return _mk('urem', w, (x, y))


def sdiv(x, y):
    w = x.w
    sx, sy = msb(x), msb(y)
    q = udiv(ite(sx, neg(x), x), ite(sy, neg(y), y))
    return ite(xor(sx, sy), neg(q), q)


def srem(x, y):
    sx, sy = msb(x), msb(y)
    r = urem(ite(sx, neg(x), x), ite(sy, neg(y), y))
    return ite(sx, neg(r), r)


def msb(x):
    return ext(x, x.w - 1, x.w - 1)


def bit(x, i):
    return ext(x, i, i)


def shlc(x, k):
    if k == 0:
        return x
    if k >= x.w:
        return const(0, x.w)
    return cat(trunc(x, x.w - k), const(0, k))


def lshrc(x, k):
    if k == 0:
        return x
    if k >= x.w:
        return const(0, x.w)
    return zext(ext(x, x.w - 1, k), x.w)


def ashrc(x, k):
    if k == 0:
        return x
    if k >= x.w:
        k = x.w - 1
    return sext(ext(x, x.w - 1, k), x.w)


def _varshift(f, op, x, s):
    """shift by a variable amount; amounts >= width give f(x, width) (total semantics)"""
    w = x.w
    if s.op == 'c':
        return f(x, min(s.a[0], w))
    if x.op == 'c' and x.a[0] == 0:
        return x
    return _mk(op, w, (x, s))


def shl(x, s):
    return _varshift(shlc, 'shl', x, s)


def lshr(x, s):
    w = x.w
    if s.op != 'c':
        n = bit_len_max(x)
        if 0 < n < w:
            return zext(lshr(trunc(x, n), s), w)
        if n == 0:
            return x
    return _varshift(lshrc, 'lshr', x, s)


def ashr(x, s):
    if x.kz >> (x.w - 1):
        return lshr(x, s)
    return _varshift(ashrc, 'ashr', x, s)


# ---------------------------------------------------------------- predicates
def eq(x, y):
    assert x.w == y.w, (x.w, y.w)
    if x is y:
        return true()
    if (x.kz & y.ko) or (x.ko & y.kz):
        return false()
    if x.op == 'c':
        x, y = y, x
    if x.op == 'c':
        return const(int(x.a[0] == y.a[0]), 1)
    w = x.w
    if w == 1:
        return not_(xor(x, y))
    if y.op == 'c':
        if x.op == 'cat':
            r = true()
            pos = w
            for p in x.a:
                pos -= p.w
                r = and_(r, eq(p, const(y.a[0] >> pos, p.w)))
            return r
        if x.op == 'not':
            return eq(x.a[0], not_(y))
        if x.op == 'add' and x.a[1].op == 'c':
            return eq(x.a[0], const(y.a[0] - x.a[1].a[0], w))
        if x.op == 'sub' and y.a[0] == 0:
            return eq(x.a[0], x.a[1])
        if x.op == 'ite':
            a, b = x.a[1], x.a[2]
            if a.op == 'c' or b.op == 'c':
                return ite(x.a[0], eq(a, y), eq(b, y))
        # known bits: compare only unknown part
        if x.op not in ('ext', 'v') and (x.kz | x.ko):
            k = x.kz | x.ko
            M = (1 << w) - 1
            u = M & ~k
            n = u.bit_length()
            low = (u & -u).bit_length() - 1
            if n < w or low > 0:
                return eq(ext(x, n - 1, low), ext(y, n - 1, low))
    elif x.op == 'cat' or y.op == 'cat':
        b = set()
        if x.op == 'cat':
            b |= _bounds(x)
        if y.op == 'cat':
            b |= _bounds(y)
        if x.op == 'cat' and y.op == 'cat':
            b2 = _bounds(x) & _bounds(y)
            b = b2 | {c for c in b if True} if len(b) < 16 else b2
        lo = 0
        r = true()
        if b:
            for c in sorted(b) + [w]:
                r = and_(r, eq(ext(x, c - 1, lo), ext(y, c - 1, lo)))
                lo = c
            return r
    if x.id > y.id and y.op != 'c':
        x, y = y, x
    return _mk('eq', 1, (x, y))


def ne(x, y):
    return not_(eq(x, y))


def umin(t):
    return t.ko


def umax(t):
    return ((1 << t.w) - 1) & ~t.kz


def ult(x, y):
    assert x.w == y.w, (x.w, y.w)
    if x is y:
        return false()
    if umax(x) < umin(y):
        return true()
    if umin(x) >= umax(y):
        return false()
    w = x.w
    if w == 1:
        return and_(not_(x), y)
    if y.op == 'c' and y.a[0] == 1:
        return eq(x, const(0, w))
    if x.op == 'c' and x.a[0] == 0:
        return ne(y, x)
    if x.op == 'c' and x.a[0] == (1 << w) - 2:
        return eq(y, const(-1, w))
    if y.op == 'c' and y.a[0] == (1 << w) - 1:
        return ne(x, y)
    # power of two bound
    if y.op == 'c' and y.a[0] & (y.a[0] - 1) == 0:
        k = y.a[0].bit_length() - 1
        return eq(ext(x, w - 1, k), const(0, w - k))
    n = max(bit_len_max(x), bit_len_max(y))
    if 0 < n < w:
        return ult(trunc(x, n), trunc(y, n))
    # common leading identical parts
    if x.op == 'cat' and y.op == 'cat' and x.a[0] is y.a[0]:
        n = w - x.a[0].w
        return ult(trunc(x, n), trunc(y, n))
    # common trailing zeros/equal
    tx, ty = _tz(x), _tz(y)
    t = min(tx, ty)
    if 0 < t < w:
        return ult(ext(x, w - 1, t), ext(y, w - 1, t))
    return _mk('ult', 1, (x, y))


def ule(x, y):
    return not_(ult(y, x))


def ugt(x, y):
    return ult(y, x)


def uge(x, y):
    return not_(ult(x, y))


def slt(x, y):
    assert x.w == y.w
    if x is y:
        return false()
    w = x.w
    if w == 1:
        return and_(x, not_(y))
    sb = 1 << (w - 1)
    if (x.kz & sb) and (y.kz & sb):
        return ult(x, y)
    if (x.ko & sb) and (y.kz & sb):
        return true()
    if (x.kz & sb) and (y.ko & sb):
        return false()
    if y.op == 'c' and y.a[0] == 0:
        return msb(x)
    return ult(cat(not_(msb(x)), trunc(x, w - 1)), cat(not_(msb(y)), trunc(y, w - 1)))


def sle(x, y):
    return not_(slt(y, x))


# ---------------------------------------------------------------- evaluation
def evaluate(roots, env, default=0):
    """evaluate terms under env: name -> int. Missing variables take `default`."""
    val = {}
    stack = list(roots)
    while stack:
        t = stack[-1]
        if t.id in val:
            stack.pop()
            continue
        op = t.op
        if op == 'c':
            val[t.id] = t.a[0]
            stack.pop()
            continue
        if op == 'v':
            v = env.get(t.a[0], default)
            val[t.id] = v & ((1 << t.w) - 1)
            stack.pop()
            continue
        kids = [x for x in t.a if isinstance(x, T)]
        todo = [k for k in kids if k.id not in val]
        if todo:
            stack.extend(todo)
            continue
        k = [val[x.id] for x in kids]
        w = t.w
        M = (1 << w) - 1
        if op == 'add':
            r = k[0] + k[1]
        elif op == 'sub':
            r = k[0] - k[1]
        elif op == 'mulx':
            r = k[0] * k[1]
        elif op == 'udiv':
            r = k[0] // k[1] if k[1] else 0
        elif op == 'urem':
            r = k[0] % k[1] if k[1] else k[0]
        elif op == 'and':
            r = k[0] & k[1]
        elif op == 'or':
            r = k[0] | k[1]
        elif op == 'xor':
            r = k[0] ^ k[1]
        elif op == 'not':
            r = ~k[0]
        elif op == 'shl':
            r = k[0] << k[1] if k[1] < w else 0
        elif op == 'lshr':
            r = k[0] >> k[1] if k[1] < w else 0
        elif op == 'ashr':
            v = k[0] - (1 << w) if k[0] >> (w - 1) else k[0]
            r = v >> min(k[1], w)
        elif op == 'eq':
            r = int(k[0] == k[1])
        elif op == 'ult':
            r = int(k[0] < k[1])
        elif op == 'ite':
            r = k[1] if k[0] else k[2]
        elif op == 'cat':
            r = 0
            for p, x in zip(t.a, k):
                r = (r << p.w) | x
        elif op == 'ext':
            r = k[0] >> t.a[2]
        else:
            raise Exception(op)
        val[t.id] = r & M
        stack.pop()
    return [val[t.id] for t in roots]


def variables(roots):
    seen = set()
    out = {}
    st = list(roots)
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == 'v':
            out[t.a[0]] = t
        for x in t.a:
            if isinstance(x, T):
                st.append(x)
    return out


_build = {'add': add, 'sub': sub, 'mulx': mulx, 'udiv': udiv, 'urem': urem, 'and': and_, 'or': or_, 'xor': xor,
          'not': not_, 'shl': shl, 'lshr': lshr, 'ashr': ashr, 'eq': eq, 'ult': ult, 'ite': ite, 'cat': cat}


def substitute(roots, mp):
    """replace terms (by identity: dict id->T) bottom-up, rebuilding with simplification"""
    val = dict(mp)
    st = list(roots)
    while st:
        t = st[-1]
        if t.id in val:
            st.pop()
            continue
        kids = [x for x in t.a if isinstance(x, T)]
        todo = [k for k in kids if k.id not in val]
        if todo:
            st.extend(todo)
            continue
        st.pop()
        if not kids:
            val[t.id] = t
            continue
        nk = [val[k.id] for k in kids]
        if all(a is b for a, b in zip(nk, kids)):
            val[t.id] = t
            continue
        if t.op == 'ext':
            val[t.id] = ext(nk[0], t.a[1], t.a[2])
        else:
            val[t.id] = _build[t.op](*nk)
    return [val[r.id] for r in roots]


def size(roots):
    seen = set()
    st = list(roots)
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        for x in t.a:
            if isinstance(x, T):
                st.append(x)
    return len(seen)
