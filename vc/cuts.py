"""Loop invariants as cut points.

A cutter watches the values the executed function writes to memory.  When a written value is
recognised as the next state of a loop it is following, the step (invariant at the old state =>
invariant and ghost equation at the new state) is proved as an obligation of its own and the value
is replaced by a fresh variable about which only the invariant is known.  The recognition looks at
what the value is (it is proved), not at names or at how the loop is written."""
import random
from fractions import Fraction
from . import terms as tm
from .terms import const, zext, sext, ext, cat, eq, ult, slt, sle, and_, not_, sub, add


class Cutter:
    def __init__(self, I):
        self.I = I
        self.facts = []        # what is known about the cut variables
        self.map = {}          # term -> replacement
        self.rejected = set()
        self.count = 0         # obligations discharged
        self.check = None      # check(conj) -> Result
        self.support = {}
        self.active = False
        self.allfacts = []
        self.defs = []         # (variable name, the term it stands for)

    def final(self):
        return list(self.facts)

    def extend(self, env):
        """values of the cut variables on a concrete input"""
        for n, t in self.defs:
            env[n] = tm.evaluate([t], env)[0]

    def deps(self, t):
        """names of the variables t depends on"""
        s = self.support.get(t)
        if s is None:
            s = self.support[t] = frozenset(tm.variables([t]))
        return s

    def see(self, v, n):
        if not self.active:
            return v
        r = self.map.get(v)
        if r is not None:
            return r
        if v in self.rejected or v.op in ('c', 'v'):
            return v
        r = self.offer(v, n)
        if r is None:
            self.rejected.add(v)
            return v
        self.map[v] = r
        return r

    def offer(self, v, n):
        return None


class SrtDivision(Cutter):
    """radix-4 digit recurrence: w' = 4 w - 2 q D, -2D < w < 2D, q in -3..3 chosen from the four
    leading bits of w and the second bit of D"""

    def __init__(self, I, F, xf, yf, seed=7):
        """xf, yf: names of the fraction fields; xf None: the dividend is the constant one"""
        super().__init__(I)
        self.F = F
        self.W = F + 3
        self.yf = yf
        self.yw = I[yf].w
        self.yfrac = I[yf] if self.yw == F else cat(I[yf], const(0, F - self.yw))
        self.D = cat(const(1, 1), self.yfrac)
        self.xw = I[xf].w if xf else 0
        x = I[xf] if xf else const(0, F)
        x = x if x.w == F else cat(x, const(0, F - x.w))
        self.cur = zext(cat(const(1, 1), x), self.W)
        self.curname = xf
        self.digits = []        # signed 3-bit terms, most significant first
        self.rng = random.Random(seed)
        self.table = []
        self.first = True
        self.prepare()

    def inv(self, w):
        W = self.W + 2
        w = sext(w, W)
        d2 = cat(self.D, const(0, 1))
        d2 = zext(d2, W)
        lo = sub(const(0, W), d2)
        # when D is a power of two the state never becomes negative
        pos = tm.or_(tm.ne(self.yfrac, const(0, self.F)), not_(tm.msb(w)))
        return tm.andl(slt(lo, w), slt(w, d2), pos)

    def prepare(self):
        """samples of the current state: for each selector value a few points inside the invariant"""
        F, W = self.F, self.W
        pts = []
        for it in range(3000):
            D = (1 << F) | (self.rng.getrandbits(self.yw) << (F - self.yw) if self.yw else 0)
            if self.first:
                w = (1 << F) | (self.rng.getrandbits(self.xw) << (F - self.xw) if self.xw else 0)
            else:
                top = self.rng.getrandbits(4)
                w = (top << (W - 4)) | (self.rng.getrandbits(W - 4) if W > 4 else 0)
                if w >> (W - 1):
                    w -= 1 << W
                if not -2 * D < w < 2 * D or (w < 0 and D == 1 << F):
                    continue
            pts.append((w, D))
        by = {}
        for w, D in pts:
            s = self.sel(w, D)
            by.setdefault(s, [])
            if len(by[s]) < 4:
                by[s].append((w, D))
        self.pts = by

    def sel(self, w, D):
        return (((w & ((1 << self.W) - 1)) >> (self.W - 4)) << 1) | (D >> (self.F - 1) & 1)

    def env(self, w, D):
        e = {self.yf: (D & ((1 << self.F) - 1)) >> (self.F - self.yw)}
        if self.first:
            if self.curname:
                e[self.curname] = (w & ((1 << self.F) - 1)) >> (self.F - self.xw)
        else:
            e[self.curname] = w & ((1 << self.W) - 1)
        return e

    def offer(self, v, n):
        W = self.W
        if v.w < W:
            return None
        t = tm.trunc(v, W)
        if v.w > W and not (ext(v, v.w - 1, W).op == 'c' and ext(v, v.w - 1, W).a[0] == 0):
            return None
        ds = self.deps(v)
        if not ds <= {self.yf, self.curname} or (self.curname and self.curname not in ds) or not ds:
            return None
        table = {}
        order = list(self.pts.items())
        for s, ps in order:
            for w, D in ps:
                x = tm.evaluate([t], self.env(w, D))[0]
                if x >> (W - 1):
                    x -= 1 << W
                r = 4 * w - x
                # modulo 2^W: the digit is the one that brings the value into range
                c = None
                for k in (0, 1, 2, 3, -1, -2, -3):
                    if r - 2 * k * D == 0:
                        c = k
                        break
                if c is None or table.setdefault(s, c) != c:
                    return None
        # prove the step for every state in the invariant
        q = self.digit(table)
        X = W + 4
        qd = self.times(q, X)
        want = sub(tm.shlc(sext(self.cur, X), 2), tm.shlc(qd, 1))
        ok = and_(eq(sext(t, X), want), self.inv(t))
        hyp = list(self.facts)
        r = self.check(hyp + [self.inv(self.cur), not_(ok)])
        if r.status != 'unsat':
            return None
        self.count += 2
        nm = 'cut:w%d' % len(self.digits)
        nv = tm.var(nm, W)
        self.digits.append(q)
        self.first = False
        self.cur, self.curname = nv, nm
        self.facts = [self.inv(nv)]
        self.allfacts += self.facts
        self.defs.append((nm, t))
        self.rejected.clear()
        self.prepare()
        return zext(nv, v.w)

    def digit(self, table):
        """3-bit signed term selected by the leading bits"""
        s = cat(ext(self.cur, self.W - 1, self.W - 4), tm.bit(self.D, self.F - 1))
        q = const(0, 3)
        for k, c in table.items():
            if c:
                q = tm.ite(eq(s, const(k, 5)), const(c & 7, 3), q)
        return q

    def times(self, q, X):
        """q * D as an X-bit signed term"""
        D = zext(self.D, X)
        a = tm.ite(tm.bit(q, 0), D, const(0, X))
        b = tm.ite(tm.bit(q, 1), tm.shlc(D, 1), const(0, X))
        c = tm.ite(tm.bit(q, 2), tm.shlc(D, 2), const(0, X))
        return sub(add(a, b), c)

    def final(self):
        return self.facts + ([self.quotient()[2]] if len(self.digits) == (self.F + 4) // 2 else [])

    def quotient(self):
        """(floor(fX * 2^(2N-1) / D), sticky): the lemma over the ghost equations.
        2 fX 4^N = 4 S D + 2 w_N  with |w_N| < 2D, S = sum of digits * 4^i, hence
        floor(fX 2^(2N-1) / D) = S - (w_N < 0) and the remainder is zero iff w_N is."""
        N = len(self.digits)
        Wq = 2 * N + 2
        S = const(0, Wq)
        for q in self.digits:
            S = add(tm.shlc(S, 2), sext(q, Wq))
        Sf = sub(S, zext(tm.msb(self.cur), Wq))
        fit = and_(ult(Sf, const(1 << (2 * N), Wq)), tm.ule(const(1 << (2 * N - 2), Wq), Sf))
        return tm.trunc(Sf, 2 * N), tm.ne(self.cur, const(0, self.W)), fit


class Newton(Cutter):
    """reciprocals by table and Newton steps.  A written value V that stands for an approximation
    V/2^k of 1/y becomes a variable; what is known about it is an interval for the residual
    1 - (V/2^k) y, separately for each of the intervals of y the table distinguishes:
    -(A + B y) <= 1 - V y/2^k <= C + D y.  It is established
      - for a table by evaluating every entry,
      - for V = 2 Z 2^a - Z^2 Y 2^b from the residual of Z, by the identity 1-(2z-z^2 y)y = (1-zy)^2,
      - for a rounded V' by bounding V' 2^s - V with the SAT solver."""

    LEMMAS = None
    DEBUG = False

    def __init__(self, I, yf, wY, wR, seed=5):
        super().__init__(I)
        self.yf, self.wY, self.wR = yf, wY, wR
        rng = random.Random(seed)
        n = 1 << wY
        pts = [0, 1, n - 1, n // 2, n // 3] + [rng.getrandbits(wY) for _ in range(12)]
        self.envs = [{yf: p % n} for p in pts]
        self.Y = cat(const(1, 1), I[yf])
        self.states = []        # (variable, k, intervals [(a, b, A, B, C, D)])
        self.bracket = None     # the variable proved to be a neighbour of the exact reciprocal

    def lemmas(self):
        from . import arith as ar
        if Newton.LEMMAS is None:
            z, y, p, q, r, m, d, u, lo, hi, A, B, C, D, a = ar.reals('z y p q r m d u lo hi A B C D a')
            ls = [('Newton step', [], 1 - (2 * z - z * z * y) * y == (1 - z * y) * (1 - z * y)),
                  ('square', [r >= 0 - p, r <= q, p >= 0, q >= 0, m >= p, m >= q], ar.conj(r * r <= m * m, r * r >= 0)),
                  ('rounding', [1 - z * y >= 0 - A - B * y, 1 - z * y <= C + D * y, d >= 0 - lo * u, d <= hi * u, y >= 1],
                   ar.conj(1 - (z + d) * y >= 0 - A - (B + hi * u) * y, 1 - (z + d) * y <= C + (D + lo * u) * y)),
                  ('neighbour', [1 - z * y >= 0 - A - B * y, 1 - z * y <= C + D * y, y >= a, a >= 1, A < (u - B) * a, C < (u - D) * a,
                                 A >= 0, B >= 0, C >= 0, D >= 0], ar.conj(1 - z * y < u * y, 1 - z * y > 0 - u * y)),
                  ('size', [C <= 1, 1 - z * y >= 0 - A - B * y, 1 - z * y <= C + D * y, y >= a, y <= p, a >= 1, A >= 0, B >= 0, C >= 0, D >= 0],
                   ar.conj(z * a <= 1 + A + B * a, z * p >= 1 - C - D * p))]
            print(ar.prove_all(ls)) if Newton.DEBUG else 0
            Newton.LEMMAS = (not ar.prove_all(ls)[0], len(ls))
            if Newton.LEMMAS[0]:
                self.count += len(ls)
        return Newton.LEMMAS[0]

    def offer(self, v, n):
        if v.w < 4:
            return None
        if not any(x == self.yf or x.startswith('cut:z') for x in self.deps(v)):
            return None
        vals = [tm.evaluate([v], e)[0] for e in self.envs]
        Y0 = 1 << self.wY
        if not vals[0]:
            return None
        ys = [Y0 | e[self.yf] for e in self.envs]
        k = (vals[0] * 4 // 3).bit_length() - 1        # V ~ 2^k at y = 1
        if k < 3 or any(not 3 * Y0 << k < 4 * x * y < 5 * Y0 << k for x, y in zip(vals, ys)):
            return None
        if not self.lemmas():
            return None
        for s in reversed(self.states):
            if s[1] == k and self.prove(eq(v, tm.trunc(zext(s[0], max(v.w, s[0].w)), v.w))):
                return zext(s[0], v.w) if v.w >= s[0].w else None
        iv, simple = self.table(v, k), False
        if iv is None:
            iv = self.step(v, k)
            if iv is None:
                iv, simple = self.rounded(v, k), True
        if Newton.DEBUG:
            import sys; print('offer k', k, 'w', v.w, 'deps', sorted(self.deps(v)), iv and (len(iv), [float(x) for x in iv[-1]]), [t.op for t in self.cone(v) if t.op == 'mulx'], file=sys.stderr, flush=True)
        if iv is None:
            return None
        return self.define(v, k, iv, simple)

    def prove(self, claim):
        if claim.op == 'c':
            ok = claim.a[0] == 1
        else:
            ok = all(tm.evaluate([claim], e)[0] for e in self.envs) and self.check(self.facts + [not_(claim)]).status == 'unsat'
        self.count += ok
        return ok

    def define(self, v, k, iv, simple):
        nm = 'cut:z%d' % len(self.states)
        fl = lambda q: q.numerator // q.denominator
        lo = min(fl((1 - C - D * b) / b * 2 ** k) for a, b, A, B, C, D in iv)
        hi = max(fl((1 + A + B * a) / a * 2 ** k) for a, b, A, B, C, D in iv)
        u = Fraction(1, 2 ** k)
        at1 = tm.substitute([v], dict([(self.I[self.yf].id, const(0, self.wY))] +
                                      [(s[0].id, const(s[3] or 0, s[0].w)) for s in self.states]))[0]
        c1 = at1.a[0] if at1.op == 'c' and all(s[3] is not None for s in self.states) else None
        # near: a neighbour of the exact value; the value at y = 1 is known from those the earlier variables have there
        near = all(A < (u - B) * a and C < (u - D) * a or a == b == 1 and c1 == 1 << k for a, b, A, B, C, D in iv)
        if near:
            # V > 2^k/y - 1 > 2^(k-1) - 1 and V < 2^k/y + 1 <= 2^k + 1
            lo, hi = max(lo, 2 ** (k - 1)), min(hi, 2 ** k)
        if lo < 0 or hi >= 1 << v.w or any(C > 1 for a, b, A, B, C, D in iv):
            return None
        W = min(v.w, hi.bit_length())
        nv = tm.var(nm, W)
        f = [tm.ule(const(lo, W), nv), tm.ule(nv, const(hi, W))]
        if c1 is not None:
            f.append(tm.or_(tm.ne(self.I[self.yf], const(0, self.wY)), eq(nv, const(c1, W))))
        if near:                # |V Y - 2^(k+wY)| < Y at the two ends of the range
            Y, yf = zext(self.Y, k + self.wY + 2), zext(self.I[self.yf], k + self.wY + 2)
            f.append(tm.or_(tm.ne(zext(nv, W + 1), const(1 << k, W + 1)), ult(tm.shlc(yf, k), Y)))
            gap = sub(const(1 << self.wY, Y.w), yf)          # 2^(k+wY) - 2^(k-1) Y = 2^(k-1) (2^wY - yf)
            f.append(tm.or_(tm.ne(zext(nv, W + 1), const(1 << (k - 1), W + 1)), ult(tm.shlc(gap, k - 1), Y)))
        if simple:              # what it stands for involves no product: keep the definition
            f.append(eq(nv, tm.trunc(v, W)))
        self.facts += f
        self.allfacts += f
        self.count += len(f)
        self.states.append((nv, k, iv, c1))
        t = tm.trunc(v, W)
        self.defs.append((nm, t))
        for e in self.envs:
            e[nm] = tm.evaluate([t], e)[0]
        if near and k == self.wR + 1 and c1 == 1 << k and self.bracket is None:
            self.bracket = nv
        self.rejected.clear()
        return zext(nv, v.w)

    def table(self, v, k):
        """v depends only on the leading bits of y: its residual on every interval they select"""
        if not self.deps(v) <= {self.yf} or any(t.op == 'mulx' for t in self.cone(v)):
            return None
        wY = self.wY
        yv = self.I[self.yf]

        def at(i, m):
            y = cat(const(i, m), tm.var('lo!', wY - m)) if m < wY else const(i, wY)
            t = tm.substitute([v], {yv.id: y})[0]
            return t.a[0] if t.op == 'c' else None
        for m in range(1, min(wY, 12) + 1):
            if any(at(i, m) is None for i in (0, (1 << m) - 1, (1 << m) // 3)):
                continue
            iv = []
            for i in range(1 << m):
                z = at(i, m)
                if z is None:
                    break
                a = 1 + Fraction(i, 1 << m)
                b = a + Fraction((1 << (wY - m)) - 1, 1 << wY)
                z = Fraction(z, 1 << k)
                for a, b in ((a, b),) if i or a == b else ((a, a), (a + Fraction(1, 1 << wY), b)):      # y = 1 on its own
                    iv.append((a, b, max(Fraction(0), z * b - 1), Fraction(0), max(Fraction(0), 1 - z * a), Fraction(0)))
            else:
                self.count += 1 << m
                return iv
        return None

    def cone(self, v):
        from . import arith as ar
        return ar.nodes([v])

    def step(self, v, k):
        """v == 2 Z 2^a - Z^2 Y 2^b"""
        from . import arith as ar
        ps = [t for t in self.cone(v) if t.op == 'mulx']
        if len(ps) != 2:
            return None
        rng = random.Random(3)
        for s in reversed(self.states):
            Z, kz = s[0], s[1]
            for Q, M in (ps, ps[::-1]):
                q0 = tm.trunc(Q, Q.w)
                o = [x for x in M.a[:2] if x.op != 'c']
                if len(o) != 2:
                    continue
                other = [x for x in o if Q not in self.cone(x)]
                if len(other) != 1:
                    continue
                sq = o[0] if o[1] is other[0] else o[1]
                for f1, f2, f3 in ((Z, Z, self.Y), (Z, self.Y, Z), (self.Y, Z, Z)):
                    sh = [self.shift(x, t) for x, t in ((Q.a[0], f1), (Q.a[1], f2), (other[0], f3))]
                    if None not in sh:
                        break
                else:
                    continue
                # M = Z^2 Y 2^(sum of the shifts), when its operand is the product Q without a bit lost
                qw = f1.w + f2.w
                qv = tm.var('square!%d' % qw, qw)
                sv = tm.substitute([sq], {Q.id: tm.shlc(zext(qv, Q.w), sh[0] + sh[1])})[0]
                es = []
                for e in self.envs:
                    e = dict(e)
                    v1, v2 = tm.evaluate([f1, f2], e)
                    e[qv.a[0]] = v1 * v2
                    es.append(e)
                j = ar.scale([tm.evaluate([sv], e)[0] for e in es], [e[qv.a[0]] for e in es])
                top = tm.ult(qv, const((1 << qw) - 1, qw))
                if j is None or self.check([top, not_(ar.same_shifted(sv, qv, j, None))]).status != 'unsat':
                    continue
                tot = j + sh[2]                 # M = Z^2 Y 2^tot
                fr = 2 * kz + self.wY           # Z^2 Y = z^2 y 2^fr
                b = k - fr                      # so v must be (2 Z << a) - (Z^2 Y << b)
                a = k - kz
                if b < 0 or a < 0:
                    continue
                mv = tm.var('cube!', M.w - tot)
                img = tm.substitute([v], {M.id: tm.shlc(zext(mv, M.w), tot)})[0]
                W = max(v.w, k + 3, M.w + b)
                want = sub(tm.shlc(zext(Z, W), a + 1), tm.shlc(zext(mv, W), b))
                # equal modulo a power of two above the value itself
                for wf in range(v.w, k, -1):
                    cl = eq(img, zext(tm.trunc(want, wf), v.w))
                    okall = True
                    for _ in range(12):
                        e = dict(rng.choice(self.envs))
                        e['cube!'] = rng.getrandbits(mv.w)
                        e[qv.a[0]] = 0
                        if not tm.evaluate([cl], e)[0]:
                            okall = False
                            break
                    if okall:
                        if self.check(self.facts + [not_(cl)]).status != 'unsat':
                            break
                        self.count += 5
                        iv = []
                        for (ya, yb, A, B, C, D) in s[2]:
                            m = max(A + B * yb, C + D * yb)
                            iv.append((ya, yb, Fraction(0), Fraction(0), m * m, Fraction(0)))
                        # 0 <= 1 - v y/2^k, so v 2^-k <= 1: no reduction modulo 2^wf (wf > k); and v > 0
                        if any(x[4] >= 1 for x in iv):
                            return None
                        return iv
        return None

    def shift(self, x, t):
        from . import arith as ar
        j = ar.scale([tm.evaluate([x], e)[0] for e in self.envs], [tm.evaluate([t], e)[0] for e in self.envs])
        if j is None or not self.prove(ar.same_shifted(x, t, j, None)):
            return None
        return j

    def rounded(self, v, k):
        """v 2^s differs from an earlier value by less than one unit"""
        for st in reversed(self.states):
            V, kv, iv = st[0], st[1], st[2]
            s = kv - k
            if s <= 0 or st[0].a[0] not in self.deps(v):
                continue
            W = max(v.w + s, V.w) + 2
            d = sub(tm.shlc(zext(v, W), s), zext(V, W))
            one = 1 << s
            for lo, hi in ((one // 2, one // 2), (3 * one // 4, one // 2), (one // 2, 3 * one // 4), (one - 1, 0), (0, one - 1), (one - 1, one - 1)):
                if self.prove(and_(sle(const(-lo % (1 << W), W), d), sle(d, const(hi, W)))):
                    u = Fraction(1, 1 << kv)
                    return [(a, b, A, B + hi * u, C, D + lo * u) for a, b, A, B, C, D in iv]
        return None
