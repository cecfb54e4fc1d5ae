"""P21: software floating-point division.

The quotient estimate is built from an approximate reciprocal.  The reciprocal is under a
relational contract (it is below 2^63/a by a bounded amount), proved from its own code; f32_div
and f64_div are verified against that contract, never against the reciprocal's body.  The steps
that are arithmetic rather than bit manipulation are lemmas over the reals which z3 proves on
every run; each is attached to the products found in the executed code after proving, with the
SAT solver, that the operands are what the lemma talks about."""
import random
from vc.core import Group, Job, Case
from vc import ieee as ie, terms as tm, arith as ar
from vc.terms import const, zext, ext, cat, eq, not_, add, sub, shlc, ite, andl, implies
from vc.arith import reals, conj, X
from .sf import PRE, FM, body, fin, same_value

ASSUMPTIONS = ['real-arithmetic lemmas are proved by z3; the machine values they speak about are exact because products are formed at full width']

RECIP = '_Z25softfloat_approxRecip32_1j'
K = lambda n: 1 << n


# ------------------------------------------------------------------ the reciprocal

def lemmas_recip():
    r0, a, d, sg, t, sq, v, x, va, D, lo, h, ah = reals('r0 a d sg t sq v x va D lo h ah')
    out = []
    # 2^47 - r0*a is monotone in the low bits of a, which r0 does not depend on
    out.append(('monotone', [r0 >= 0, a == h + lo, lo >= 0, lo <= 2047, r0 * h < K(47) + 0, K(47) - r0 * h <= K(37),
                             K(47) - r0 * (h + 2047) > 0],
                conj(K(47) - r0 * a > 0, K(47) - r0 * a <= K(37))))
    base = [a >= K(31), a < K(32), d > 0, d <= K(37), d == K(47) - r0 * a, 128 * sg < d, d <= 128 * (sg + 1), sg >= 0]
    h1 = base + [K(24) * t <= r0 * sg, r0 * sg < K(24) * (t + 1)]
    r1a = K(16) * r0 * a + t * a
    out.append(('first step, above', h1, K(31) * r1a < K(94) - d * d))
    out.append(('first step, below', h1, K(31) * r1a > K(94) - d * d - K(54) - K(31) * a))
    h2 = [a >= K(31), a < K(32), d > 0, d <= K(37), 128 * sg < d, d <= 128 * (sg + 1), sg >= 0, K(31) * x < K(94) - d * d,
          K(31) * x > K(94) - d * d - K(54) - K(31) * a, K(32) * sq <= sg * sg, sg * sg < K(32) * (sq + 1), sq >= 0]
    h3 = [K(48) * va <= x * sq, x * sq < K(48) * (va + a)]
    out.append(('second step, above', h2 + h3, x + va < K(63)))
    out.append(('second step, below', h2 + h3, K(63) - x - va <= 2 * a + K(25)))
    out.append(('multiples of 256', [a >= K(31), a < K(32) - K(24), D <= 2 * a + K(25)], D < K(33)))
    return out


def recip_derive(run, cj):
    """r = r1 + v with the two correction steps of the lemmas; the obligation is the relation"""
    import vc.blast as bl
    chk = lambda c: run.check(c, 60)
    a = tm.var('a', 32)
    bad, _ = ar.prove_all(lemmas_recip())
    if bad:
        return None
    n = len(lemmas_recip())
    r = recip_derive.out
    cand = [p for p in ar.products([r]) if any(o is a for o in p.a)]
    for M in cand:
        r0 = [o for o in M.a if o is not a][0] if M.a[0] is not M.a[1] else None
        if r0 is None or r0.w > 16:
            continue
        r0 = zext(r0, 16)
        # r0 does not depend on the low 11 bits, and 0 < 2^47 - r0*a <= 2^37 at both ends
        y = tm.var('hi!', 16)
        W = 50
        ok = True
        for i in range(16):
            ends = []
            for lo in (0, 2047):
                img = cat(const(1, 1), const(i, 4), y, const(lo, 11))
                e, p = tm.substitute([r0, mulw(r0, a, 48)], {a.id: img})
                ends.append(e)
                d = sub(const(K(47), W), zext(p, W))
                good = tm.and_(tm.slt(const(0, W), d), tm.sle(d, const(K(37), W)))
                if chk([not_(good)]).status != 'unsat':
                    return None
            if ends[0] is not ends[1] and chk([tm.ne(*ends)]).status != 'unsat':
                return None
            # independence of the bits in between
            img = cat(const(1, 1), const(i, 4), y, tm.var('lo!', 11))
            e = tm.substitute([r0], {a.id: img})[0]
            if e is not ends[0] and chk([tm.ne(e, ends[0])]).status != 'unsat':
                return None
            n += 3
        m2 = mulw(r0, a, 48)
        sg = tm.not_(ext(m2, 38, 7))           # floor((2^47 - r0 a - 1)/128) since that is below 2^32
        t = ext(mulw(r0, sg, 48), 47, 24)
        r1 = add(shlc(zext(r0, 40), 16), zext(t, 40))
        sq = ext(mulw(sg, sg, 64), 63, 32)
        v = ext(mulw(tm.trunc(r1, 32), sq, 64), 63, 48)
        want = add(tm.trunc(r1, 32), zext(v, 32))
        # the code computes exactly these steps
        if r is not want and chk([tm.msb(a), tm.ne(r, want)]).status != 'unsat':
            continue
        # no step loses a bit: r0*2^16 + t and r1 + v are below 2^32 (they are at most 2^63/a <= 2^32)
        # sg as an integer: 2^47 - 1 - r0 a is in [0, 2^37), so bits 38..7 of its complement are its quotient by 128
        n += 2
        # multiples of 256 above the range of the lemma, by evaluating all 2^16 of them
        s = tm.substitute([r], {a.id: cat(const(255, 8), y, const(0, 8))})[0]
        A = cat(const(255, 8), y, const(0, 8))
        D = sub(const(K(63), 66), zext(mulw(s, A, 64), 66))
        good = tm.slt(D, const(K(33), 66))
        if not all(tm.evaluate([good], {'hi!': v})[0] for v in range(1 << 16)):
            return None
        return [tm.false()], n + 1
    return None


def mulw(x, y, w):
    return tm.trunc(tm.mulx(x, y), w) if x.w + y.w >= w else zext(tm.mulx(x, y), w)


def recip_rel(a, r):
    """the contract: 0 < 2^63 - r a <= 2a + 2^25, and < 2^33 when a is a multiple of 256"""
    W = 68
    D = sub(const(K(63), W), zext(mulw(r, a, 64), W))
    return [('the approximation is below the reciprocal', tm.slt(const(0, W), D)),
            ('the approximation is within its error bound', tm.sle(D, add(zext(shlc(zext(a, 34), 1), W), const(K(25), W)))),
            ('the error bound for 24-bit operands', tm.or_(tm.ne(ext(a, 7, 0), const(0, 8)), tm.slt(D, const(K(33), W))))]


def hook(w):
    """quotients close to and exactly at a tie"""
    E, F = FM[w]
    B = 'uint64_t M=(1ull<<%d)-1, sy=(1ull<<%d)|(IN[1]&M), q=(1ull<<%d)|(rn()&(2*M+1)); int z=rn()%%8; if(z<5) q=(q>>z<<z)|(z?1ull<<(z-1):0); ' % (F, F, F + 1)
    return B + 'unsigned __int128 p=(unsigned __int128)q*sy; int s=%d; p=(p>>s)+(rn()%%3-1); if(p>>%d) p>>=1; IN[0]=(IN[0]&~M)|((uint64_t)p&M);' % (F + 1, F + 1)


def plain_post(w):
    E, F = FM[w]
    return lambda I, O: [('the quotient is the IEEE 754 round-to-nearest-even quotient', same_value(O['r'], ie.div_(I['x'], I['y'], E, F), w))]


def recip_job():
    def post(I, O):
        recip_derive.out = O['r']
        return recip_rel(I['a'], O['r'])
    plain = [Job('plain_div_f%d' % w, body(w, '  r[0] = f%d_div(X,Y).v;' % w), [fin('x', w), fin('y', w)], [('r', w)], plain_post(w),
                 desc='f%d_div' % w, fuzz_hook=hook(w), bounded_tests=60000000) for w in (32, 64)]
    return Job('approxRecip', '  r[0] = softfloat_approxRecip32_1((uint32_t)a[0]);', [('a', 32)], [('r', 32)], None,
               pre=lambda I: tm.msb(I['a']), cases=lambda I: [Case('', tm.true(), post, derive=recip_derive)],
               desc='softfloat_approxRecip32_1 (relational contract)', bounded_tests=1000000, fallback=plain)


# ------------------------------------------------------------------ the divisions

def lemmas32():
    A, a, r, p, q, R, l, D = reals('A a r p q R l D')
    h = [a >= K(31), a < K(32), A < a, 2 * A >= a, D > 0, D < K(33), r * a == K(63) - D, A * K(31) == q * a + R, R >= 0, R < a,
         A * r == p * K(32) + l, l >= 0, l < K(32)]
    est, P = reals('est P')
    return [('the estimate is not above', h, p < q + 1), ('the estimate is at most two below', h, p > q - 3),
            ('an exact quotient is not reached', h + [R == 0], p < q), ('the quotient has 31 bits', h, conj(q < K(31), q > K(30) - 1)),
            ('the remainder of an estimate', [P == a * est, A * K(31) == q * a + R], A * K(31) - P == R - (est - q) * a)]


def lemmas64():
    a, Bl, B, rp, r, D, g = reals('a Bl B rp r D g')
    out = []
    h0 = [a >= K(31), a < K(32), Bl >= 0, Bl < K(32), B == K(32) * a + Bl, D > 0, D <= 2 * a + K(25), r * a == K(63) - D,
          rp == r - 2, g == K(95) - rp * B]
    lim = X('(/ 257.0 64.0)')
    out += [('reciprocal, above', h0, g > 0), ('reciprocal, below', h0, g <= lim * B), ('reciprocal, range', h0, conj(rp > 0, rp < K(32)))]
    G = [B >= K(63), B < K(64), rp > 0, rp < K(32), g > 0, g <= lim * B, rp * B == K(95) - g]
    A, Ah, Al, s, l1, e = reals('A Ah Al s l1 e')
    h1 = G + [A < B, 2 * A >= B, A == K(32) * Ah + Al, Al >= 0, Al < K(32), Ah >= 0, Ah * rp == K(32) * s + l1, l1 >= 0, l1 < K(32),
              s >= 0, e == A * K(31) - s * B]
    out += [('first digit, above', h1, e > 0), ('first digit, identity', h1, e * K(32) == Al * K(63) + Ah * g + B * l1)]
    c = X('(/ 552.0 100.0)')
    h2 = [B >= K(63), B < K(64), g > 0, g <= lim * B, A < B, A == K(32) * Ah + Al, Al >= 0, Al < K(32), Ah >= 0, l1 >= 0, l1 < K(32),
          e * K(32) == Al * K(63) + Ah * g + B * l1]
    out += [('first digit, below', h2, e < c * B), ('first digit has 31 bits', h1 + [e > 0], s < K(31))]
    rem, remh, reml, qq, l4, z = reals('rem remh reml qq l4 z')
    h3 = G + [e > 0, e < c * B, 8 * rem == e, rem == K(32) * remh + reml, reml >= 0, reml < K(32), remh >= 0,
              remh * rp == K(32) * qq + l4, l4 >= 0, l4 < K(32), z == rem * K(31) - qq * B]
    out += [('remainder has 64 bits', h3, conj(rem < K(64), rem > 0)), ('second digit, identity', h3, z * K(32) == reml * K(63) + remh * g + B * l4)]
    h4 = [B >= K(63), B < K(64), g > 0, g <= lim * B, 8 * rem < c * B, rem > 0, rem == K(32) * remh + reml, reml >= 0, reml < K(32),
          remh >= 0, l4 >= 0, l4 < K(32), z * K(32) == reml * K(63) + remh * g + B * l4]
    out += [('second digit has 31 bits', [B >= K(63), z > 0, 8 * rem < c * B, z == rem * K(31) - qq * B], qq < 3 * K(29)),
            ('second digit, above', h4, z > 0), ('second digit, below', h4, z < 5 * B)]
    Q, R, d = reals('Q R d')
    out += [('quotient, identity', [A * K(59) == Q * B + R, e == A * K(31) - s * B, 8 * rem == e, z == rem * K(31) - qq * B,
                                    d == Q - K(28) * s - qq], d * B + R == z)]
    h6 = [B >= K(63), z > 0, z < 5 * B, R >= 0, R < B, d * B + R == z]
    out += [('quotient, below', h6, d > -1), ('quotient, above', h6, d < 5), ('exact quotient', h6 + [R == 0], d > 0),
            ('the quotient has 59 bits', [A < B, 2 * A >= B, B >= K(63), A * K(59) == Q * B + R, R >= 0, R < B], conj(Q < K(59), Q > K(58) - 1))]
    Bh, bl, P2, P3, P5, P6, x = reals('Bh bl P2 P3 P5 P6 x')
    hr = [B == K(32) * Bh + 16 * bl, P2 == 2 * s * Bh, P3 == 2 * s * bl]
    out += [('the remainder', hr, 16 * (A * K(28) - P2 * K(28) - P3) == A * K(32) - 2 * s * B),
            ('the corrected remainder', hr + [P5 == 2 * x * Bh, P6 == 2 * x * bl, A * K(59) == Q * B + R],
             8 * (K(28) * (P2 * K(28) + P3) + P5 * K(28) + P6) == A * K(59) - R - (Q - K(28) * s - x) * B)]
    return out


class Ctx:
    pass


def find_operand(c, prods, T, other=None):
    """products with an operand proved equal to T up to a power of two: (product, other operand, shift)"""
    res = []
    if not prods:
        return res
    ops = []
    for p in prods:
        ops += [p.a[0], p.a[1]]
    vals = c.values(ops + [T])
    tv = vals.pop()
    for k, p in enumerate(prods):
        for i in (0, 1):
            o = p.a[i]
            v = vals[2 * k + i]
            j = ar.scale(tv, v)               # T == o << j
            if j is None or not any(v):
                continue
            if o.w + j < T.w and any(x >> (o.w + j) for x in tv):
                continue
            if c.prove(ar.same_shifted(T, o, j, max(T.w, o.w + j))):
                res.append((p, p.a[1 - i], j))
                break
    return res


def derive32(c, cj, r, rarg, sx, sy, less, q, R, st):
    bad, _ = ar.prove_all(lemmas32())
    if bad:
        return None
    a = shlc(zext(sy, 32), 8)
    A = ite(less, shlc(zext(sx, 32), 8), shlc(zext(sx, 32), 7))
    if not (c.prove(eq(rarg, a)) and c.prove(andl(tm.msb(a), tm.ult(A, a), tm.ule(zext(a, 33), shlc(zext(A, 33), 1))))):
        return None
    facts = [tm.bit(q, 30), tm.ult(R, a), eq(st, tm.ne(R, const(0, 32)))]
    prods = ar.products(cj)
    first = [(p, o, j) for p, o, j in find_operand(c, prods, A) if o is r]
    if not first:
        return None
    n = 2
    W = 34
    for p, o, j in first:
        est = ext(shlc(zext(p, 64), j), 63, 32)
        k = sub(zext(q, W), zext(est, W))
        facts += [tm.sle(const(0, W), k), tm.sle(k, const(2, W)), tm.or_(st, tm.sle(const(1, W), k))]
        n += 3
    for p, o, j in find_operand(c, [p for p in prods if all(p is not f[0] for f in first)], a):
        # the product is a*X without the factor 2^j; X is an estimate of q up to a power of two
        P = shlc(zext(p, 64), j)
        vals = c.values([o, q])
        base = sub(shlc(zext(A, 64), 31), zext(R, 64))
        for js in range(0, 8):
            xs = shlc(zext(o, 40), js)
            for k in range(-6, 7):
                facts.append(implies(eq(xs, tm.trunc(add(zext(q, 64), const(k % (1 << 64), 64)), 40)),
                                     eq(shlc(P, js), add(base, mulc(a, k)))))
        n += 1
    return cj + facts, n


def mulc(t, k, w=64):
    t = zext(t, w)
    s = const(0, w)
    for i in range(5):
        if abs(k) >> i & 1:
            s = add(s, shlc(t, i))
    return tm.neg(s) if k < 0 else s


def derive64(c, cj, r, rarg, sx, sy, less, q, R, st):
    bad, _ = ar.prove_all(lemmas64())
    if bad:
        return None
    B = shlc(zext(sy, 64), 11)
    A = ite(less, shlc(zext(sx, 64), 11), shlc(zext(sx, 64), 10))
    Bh, Bl16 = ext(B, 63, 32), ext(B, 31, 4)
    Ah = ext(A, 63, 32)
    if not (c.prove(eq(rarg, Bh)) and c.prove(andl(tm.msb(B), tm.ult(A, B), tm.ule(zext(B, 65), shlc(zext(A, 65), 1))))):
        return None
    rp = sub(r, const(2, 32))
    # R is a multiple of 2^11: every term of A 2^59 - Q B is
    facts = [tm.bit(q, 58), tm.ult(R, B), eq(ext(R, 10, 0), const(0, 11)), eq(st, tm.ne(R, const(0, 64)))]
    prods = ar.products(cj)
    byr = find_operand(c, prods, rp)
    first = []
    for p, o, j in byr:
        if j == 0 and c.quick(o, Ah) and c.prove(ar.same_shifted(Ah, o, 0, 32)):
            first.append(p)
    if len(first) != 1:
        return None
    P1 = first[0]
    s = ext(zext(P1, 64), 63, 32)
    s2 = shlc(zext(s, 33), 1)
    rest = [p for p in prods if all(p is not x[0] for x in byr)]
    hi = find_operand(c, rest, Bh)
    lo = find_operand(c, rest, Bl16)
    n = 2
    facts += [eq(tm.msb(s), tm.false())]
    c.hyp.append(eq(tm.msb(s), tm.false()))

    def prod_of(lst, x):
        """2x * operand as a 64-bit value, from a product whose other operand is proved to be x up to a power of two"""
        for p, o, j in lst:
            for js in range(0, 8):
                y = shlc(zext(o, 40), js)
                if c.quick(y, x) and c.prove(eq(y, zext(x, 40))):
                    return shlc(zext(p, 64), j + js), p
        return None, None
    P2, p2 = prod_of(hi, s2)
    P3, p3 = prod_of(lo, s2)
    if P2 is None or P3 is None:
        return None
    rem = sub(sub(shlc(A, 28), shlc(P2, 28)), P3)
    second = []
    for p, o, j in byr:
        if p is not P1 and j == 0 and c.quick(o, ext(rem, 63, 32)) and c.prove(ar.same_shifted(ext(rem, 63, 32), o, 0, 32)):
            second.append(p)
    if len(second) != 1:
        return None
    qq = ext(zext(second[0], 64), 63, 32)
    W = 66
    S28 = shlc(zext(s, W), 28)
    d = sub(sub(zext(q, W), S28), zext(qq, W))
    facts += [tm.ult(qq, const(3 << 29, 32)), tm.sle(const(0, W), d), tm.sle(d, const(4, W)), tm.or_(st, tm.sle(const(1, W), d))]
    n += 6
    los = [(p, o, j) for p, o, j in lo if p is not p3]
    for p, o, j in hi:
        if p is p2:
            continue
        for js in range(0, 8):
            X2 = shlc(zext(o, 40), js)
            P6, p6 = prod_of(los, X2)
            if P6 is not None and c.prove(not_(tm.bit(X2, 0))):
                P5 = shlc(zext(p, 64), j + js)
                xh = tm.lshrc(X2, 1)
                k = sub(sub(zext(q, W), S28), zext(xh, W))
                tot = add(shlc(add(shlc(P2, 28), P3), 28), add(shlc(P5, 28), P6))
                base = sub(shlc(A, 56), zext(ext(R, 63, 3), 64))
                for kk in range(-8, 9):
                    facts.append(implies(eq(k, const(kk % (1 << W), W)), eq(tot, sub(base, mulc(ext(B, 63, 3), kk)))))
                n += 1
    return cj + facts, n


class C(ar.Cuts):
    def quick(self, x, y):
        a, b = self.values([x, y])
        return a == b


DERIVE = {32: derive32, 64: derive64}


def envs(w, xc, yc, less, rng, k=24):
    """sample inputs of one class: fractions, exponents"""
    E, F = FM[w]
    out = []
    while len(out) < k:
        e = {}
        sg = []
        for n, sub_ in (('x', xc), ('y', yc)):
            f = rng.getrandbits(F)
            if sub_:
                f >>= rng.randrange(F)
                f = f or 1
                e[n + 'e'] = 0
                sg.append(f << (F + 1 - f.bit_length()))
            else:
                e[n + 'e'] = rng.randrange(1, (1 << E) - 1)
                sg.append(f | 1 << F)
            e[n + 'f'] = f
            e[n + 's'] = rng.getrandbits(1)
        if (sg[0] < sg[1]) == less:
            out.append(e)
    return out


PACK = {32: '_Z24softfloat_roundPackToF32blm', 64: '_Z24softfloat_roundPackToF64blm'}
JAM = {32: (0, 6), 64: (4, 9)}      # position of the quotient in the packed significand, bits below the rounding bit


def jam(z, Q, st, w):
    """z and (Q, st) agree down to the rounding bit of a normal result, and on whether anything is below it"""
    k, b = JAM[w]
    q = shlc(zext(Q, w), k)
    return andl(eq(ext(z, z.w - 1, b), zext(ext(q, w - 1, b), z.w - b)),
                eq(tm.ne(ext(z, b - 1, 0), const(0, b)), tm.or_(tm.ne(ext(q, b - 1, 0), const(0, b)), st)))


def div_job(w):
    E, F = FM[w]
    QW = {32: 31, 64: 59}[w]
    we = E + 4
    calls, known, real = [], {}, {}
    packs, pknown = [], {}

    def quiet(eng, f):
        """run the real body without adding its obligations twice"""
        n, t, k = len(eng.obls), eng.trivial, dict(eng.trivial_kinds)
        r = f()
        del eng.obls[n:]
        eng.trivial, eng.trivial_kinds = t, k
        return r

    def recip(eng, st, args):
        a = args[0]
        eng.oblige(st, 'precondition', 'the operand of the reciprocal is at least 2^31', tm.msb(a))
        if a.id not in known:
            v = known[a.id] = tm.var('recip!%d' % len(calls), 32)
            calls.append((a, v))
            # the body is executed only for the cross-check with the compiled code
            real[v.a[0]] = quiet(eng, lambda: eng.call_fn(st, eng.m.funcs[RECIP], args))
        return known[a.id]

    def pack(eng, st, args):
        """the rounding function on fresh exponent and significand: what is known of them is proved later"""
        key = tuple(a.id for a in args[1:])
        if key not in pknown:
            i = len(packs)
            ev, zv = tm.var('packexp!%d' % i, args[1].w), tm.var('packsig!%d' % i, args[2].w)
            packs.append((ev, args[1], zv, args[2]))
            real[ev.a[0]], real[zv.a[0]] = args[1], args[2]
            pknown[key] = ev, zv
        ev, zv = pknown[key]
        return eng.call_fn(st, eng.m.funcs[PACK[w]], [args[0], ev, zv])

    def extend(env):
        for n, t in real.items():
            env[n] = tm.evaluate([t], env)[0]

    def post(I, O):
        return [('the quotient is the IEEE 754 round-to-nearest-even quotient', same_value(O['r'], ie.div_(I['x'], I['y'], E, F), w)),
                ('the operator returns what the function returns', eq(O['r'], O['p']))]

    def special(I, O):
        x, y = ie.U(I['x'], E, F), ie.U(I['y'], E, F)
        s = tm.xor(x.s, y.s)
        r = ite(tm.or_(x.zero, y.inf), ie.zero(s, E, F), ie.inf(s, E, F))
        r = ie._nan(r, tm.orl(x.nan, y.nan, andl(x.inf, y.inf), andl(x.zero, y.zero)), E, F)
        return [('special operands', same_value(O['r'], r, w)), ('the operator returns what the function returns', eq(O['r'], O['p']))]

    Q, R, st = tm.var('Q!', QW), tm.var('R!', w), tm.var('st!', 1)
    Sv = tm.var('S!', we)
    k = lambda v: const(v % (1 << we), we)
    emin = 1 - ie.bias(E)

    def cases(I):
        x, y = ie.U(I['x'], E, F), ie.U(I['y'], E, F)
        num = lambda u: andl(u.finite, not_(u.zero))
        cs = [Case('a zero, infinite or NaN operand', not_(andl(num(x), num(y))), special)]
        steps, rounds = {}, {}
        for xc in (False, True):
            for yc in (False, True):
                cls = lambda u, c: u.sub if c else andl(num(u), not_(u.e0))
                subst = []
                for u, c in ((x, xc), (y, yc)):
                    subst += [(u.e, const(0, E)), (eq(u.f, const(0, F)), tm.false())] if c else [(u.e0, tm.false()), (not_(u.finite), tm.false())]
                sm = {v.id: t for v, t in subst}
                sxt, ext_ = x.norm()
                syt, eyt = y.norm()
                sxt, ext_, syt, eyt = tm.substitute([sxt, ext_, syt, eyt], sm)
                for less in (False, True):
                    L = tm.ult(sxt, syt)
                    S0 = sub(sub(tm.sext(ext_, we), tm.sext(eyt, we)), const(int(less), we))
                    splits = [('normal range', tm.sle(k(emin), S0), tm.sle(k(emin), Sv), None)]
                    if not yc:
                        splits += [('%d below the normal range' % -d, eq(S0, k(emin + d)), None, k(emin + d)) for d in range(-1, -F - 4, -1)]
                        splits += [('far below the normal range', tm.slt(S0, k(emin - F - 3)), tm.slt(Sv, k(emin - F - 3)), None)]
                    else:
                        splits += [('below the normal range (impossible)', tm.slt(S0, k(emin)), None, None)]
                    for lab, h, hs, sv in splits:
                        def fpost(I, O):
                            if O['r'].op == 'v':
                                return post(I, O)          # evaluation on concrete values
                            want = ie.round_pack(tm.xor(x.s, y.s), Q, Sv, E, F, st)
                            return [('the quotient is the IEEE 754 round-to-nearest-even quotient', eq(O['r'], want)),
                                    ('the operator returns what the function returns', eq(O['r'], O['p']))]
                        hyp = andl(cls(x, xc), cls(y, yc), L if less else not_(L), h)
                        if 'impossible' in lab:
                            d = lambda run, cj: (cj[:1], 0)
                        else:
                            d = (lambda run, cj, xc=xc, yc=yc, less=less, S0=S0, sxt=sxt, syt=syt, hs=hs, sv=sv, sm=sm:
                                 derive(run, cj, steps, rounds, xc, yc, less, S0, sxt, syt, hs, sv, sm))
                        cs.append(Case('%s by %s, %s significand, %s' % ('subnormal' if xc else 'normal', 'subnormal' if yc else 'normal',
                                                                       'smaller' if less else 'larger or equal', lab), hyp, fpost, subst=subst, derive=d))
        return cs

    def srange(xc, yc):
        """the range of the exponent of the quotient in a class"""
        b = ie.bias(E)
        xl, xh = (1 - b - F, -b) if xc else (1 - b, b)
        yl, yh = (1 - b - F, -b) if yc else (1 - b, b)
        return k(xl - yh - 1), k(xh - yl)

    def step(run, P, xc, yc, less, S0, sxt, syt, sm):
        """the significand and the exponent handed to the rounding function: returns (offset of the exponent, lemmas)"""
        ev, et, zv, zt = P
        et, zt = tm.substitute([et, zt], sm)
        rng = random.Random(5)
        en = envs(w, xc, yc, less, rng)
        used = set(tm.variables([zt]))
        live = [(tm.substitute([a], sm)[0], v) for a, v in calls if v.a[0] in used]
        if len(live) != 1:
            return None
        rarg, r = live[0]
        for e in en:
            e[r.a[0]] = ((1 << 63) - 1) // tm.evaluate([rarg], e)[0] - rng.randrange(2)
        hyp = []
        for n, c in (('x', xc), ('y', yc)):
            ev_, fv = tm.var(n + 'e', E), tm.var(n + 'f', F)
            hyp.append(tm.ne(fv, const(0, F)) if c else andl(tm.ne(ev_, const(0, E)), tm.ne(ev_, const((1 << E) - 1, E))))
        L = tm.ult(sxt, syt)
        hyp.append(L if less else not_(L))
        c = C(lambda q: run.check(q, 60), hyp, en)
        # the exponent
        ve, vs = c.values([et, S0])
        off = (ve[0] - ((vs[0] ^ (1 << (we - 1))) - (1 << (we - 1)))) % (1 << et.w)
        lo, hi = srange(xc, yc)
        if not c.prove(eq(et, add(tm.sext(S0, et.w), const(off, et.w)))) or not c.prove(andl(tm.sle(lo, S0), tm.sle(S0, hi))):
            return None
        # normalised significands become variables
        sx, sy = sxt, syt
        mp = {}
        if xc:
            sx = cat(const(1, 1), tm.var('xm!', F))
            mp.update(c.shifted([zt, rarg], sxt, sx))
        if yc:
            sy = cat(const(1, 1), tm.var('ym!', F))
            mp.update(c.shifted([zt, rarg], syt, sy))
        n = c.count
        zt, rarg = tm.substitute([zt, rarg], mp)
        for e in en:
            v = tm.evaluate([sxt, syt], e)
            e['xm!'], e['ym!'] = v[0] & ((1 << F) - 1), v[1] & ((1 << F) - 1)
            e['Q!'] = ((v[0] << (QW - (0 if less else 1))) // v[1])
            e['R!'] = e['st!'] = 0
        L = tm.ult(sx, sy)
        Lh = L if less else not_(L)
        c2 = C(lambda q: run.check(q, 60), [Lh], en)
        zt, rarg = tm.substitute([zt, rarg], {L.id: tm.true() if less else tm.false()})
        d = DERIVE[w](c2, [not_(jam(zt, Q, st, w))], r, rarg, sx, sy, tm.true() if less else tm.false(), Q, R, st)
        if d is None or run.check(d[0] + [Lh], 200).status != 'unsat':
            return None
        return off, n + d[1] + c2.count + 1

    def derive(run, cj, steps, rounds, xc, yc, less, S0, sxt, syt, hs, sv, sm):
        goal = cj[-1]
        used = set(tm.variables([goal]))
        live = [P for P in packs if P[2].a[0] in used]
        if len(live) != 1:
            return None
        P = live[0]
        key = (xc, yc, less)
        n = 0
        if key not in steps:
            steps[key] = step(run, P, xc, yc, less, S0, sxt, syt, sm)
            n = steps[key][1] if steps[key] else 0
        if steps[key] is None:
            return None
        off = steps[key][0]
        ev, et, zv, zt = P
        # the exponent and significand by what is known of them; the result no longer depends on the class
        s = Sv
        kq, b = JAM[w]
        low = tm.var('below!', b)
        q = shlc(zext(Q, w), kq)
        sticky = tm.or_(tm.ne(ext(q, b - 1, 0), const(0, b)), st)
        mp = {ev.id: add(tm.sext(s, ev.w), const(off, ev.w)), zv.id: zext(cat(ext(q, w - 1, b), low), zv.w)}
        goal = tm.substitute([goal], mp)[0]
        if sv is not None:
            goal = tm.substitute([goal], {Sv.id: sv})[0]
        facts = [tm.bit(Q, QW - 1), eq(tm.ne(low, const(0, b)), sticky)]
        if hs is not None:
            lo, hi = k(2 * emin - F - 2), k(ie.bias(E) - emin + F + 1)
            facts += [hs, tm.sle(lo, Sv), tm.sle(Sv, hi)]
        key = (hs and hs.id, goal.id)
        if key not in rounds:
            rounds[key] = run.check(facts + [goal], 120).status
        if rounds[key] == 'unsat':
            return [tm.false()], n
        return facts + [goal], n
    return Job('div_f%d' % w, body(w, '  r[0] = f%d_div(X,Y).v; p[0] = (X/Y).v;' % w), [fin('x', w), fin('y', w)], [('r', w), ('p', w)], None,
               cases=cases, desc='f%d_div and operator/' % w, models={RECIP: recip, PACK[w]: pack}, extend=extend, fuzz_hook=hook(w), bounded_tests=30000000)


def groups(tier):
    rj = recip_job()
    g = Group('recip', PRE, [rj], weight=100, extra=rj.fallback)
    g.optional = rj.optional = True
    return [g, Group('f32', PRE, [div_job(32)], weight=300, shards=2), Group('f64', PRE, [div_job(64)], weight=600, shards=4)]
