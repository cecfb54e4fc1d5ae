"""Self-test of the specification functions and of the term engine.

The specification functions (vc/spec.py) are bit-vector circuits; here they are compared with
exact rational arithmetic on structured random inputs, and the bit-blaster is compared with the
term evaluator.  A failure means the oracle of the checks is wrong: exit 1."""
import random
from fractions import Fraction as Q
import math, struct
from . import terms as tm, spec as sp, blast, ieee as ie

FMT = [(4, 3), (4, 5), (5, 10), (6, 4), (8, 23), (11, 52)]


def rnd_bits(rng, w):
    m = rng.randrange(6)
    M = (1 << w) - 1
    if m == 0:
        return rng.choice([0, M])
    if m == 1:
        return 1 << rng.randrange(w)
    if m == 2:
        return M ^ (1 << rng.randrange(w))
    if m == 3:
        return rng.getrandbits(w) >> rng.randrange(w)
    if m == 4:
        return (rng.getrandbits(w) << rng.randrange(w)) & M
    return rng.getrandbits(w)


def rnd(rng, E, F, near=None):
    k = rng.choice([1, 1, 1, 1, 1, 0, 2, 3])
    e = rnd_bits(rng, E) if near is None or rng.randrange(2) else max(0, min((1 << E) - 1, near + rng.randrange(-F - 4, F + 5)))
    return k, rng.randrange(2), e, rnd_bits(rng, F)


def pack(v, E, F):
    k, s, e, f = v
    return (((k << 1 | s) << E | e) << F) | f


def split(b, E, F):
    return b >> (E + F + 1), b >> (E + F) & 1, b >> F & ((1 << E) - 1), b & ((1 << F) - 1)


def val(v, E, F):
    k, s, e, f = v
    x = Q(2) ** (e - ((1 << (E - 1)) - 1)) * (1 + Q(f, 1 << F))
    return -x if s else x


def rn(q, E, F, zs=0):
    """round a rational to nearest even in (E,F), unbounded exponent, then overflow/underflow"""
    if q == 0:
        return (0, zs, None, None)
    s = 1 if q < 0 else 0
    a = abs(q)
    e = a.numerator.bit_length() - a.denominator.bit_length()
    while Q(2) ** e > a:
        e -= 1
    while Q(2) ** (e + 1) <= a:
        e += 1
    m = a / Q(2) ** e * (1 << F)
    n = m.numerator // m.denominator
    r = m - n
    if r > Q(1, 2) or (r == Q(1, 2) and n & 1):
        n += 1
    if n == 2 << F:
        n >>= 1
        e += 1
    eb = e + (1 << (E - 1)) - 1
    if eb < 0:
        return (0, s, None, None)
    if eb >= 1 << E:
        return (2, s, None, None)
    return (1, s, eb, n - (1 << F))


def agree(got, want):
    if got[0] != want[0]:
        return False
    if got[0] == 3:
        return True
    if got[1] != want[1]:
        return False
    return got[0] != 1 or got[2:] == want[2:]


NAN = (3, 0, None, None)


def ref_add(x, y, EX, FX, EY, FY, E, F):
    if x[0] == 3 or y[0] == 3 or (x[0] == y[0] == 2 and x[1] != y[1]):
        return NAN
    if x[0] == 2:
        return (2, x[1], None, None)
    if y[0] == 2:
        return (2, y[1], None, None)
    if x[0] == y[0] == 0:
        return (0, x[1] & y[1], None, None)
    q = (val(x, EX, FX) if x[0] else 0) + (val(y, EY, FY) if y[0] else 0)
    return rn(q, E, F)


def ref_mul(x, y, EX, FX, EY, FY, E, F):
    s = x[1] ^ y[1]
    if x[0] == 3 or y[0] == 3 or (x[0], y[0]) in ((0, 2), (2, 0)):
        return NAN
    if 2 in (x[0], y[0]):
        return (2, s, None, None)
    if 0 in (x[0], y[0]):
        return (0, s, None, None)
    return rn(val(x, EX, FX) * val(y, EY, FY), E, F)


def ref_div(x, y, EX, FX, EY, FY, E, F):
    s = x[1] ^ y[1]
    if x[0] == 3 or y[0] == 3 or (x[0], y[0]) in ((0, 0), (2, 2)):
        return NAN
    if x[0] == 2 or y[0] == 0:
        return (2, s, None, None)
    if x[0] == 0 or y[0] == 2:
        return (0, s, None, None)
    return rn(val(x, EX, FX) / val(y, EY, FY), E, F)


def check(name, spec, ref, rng, fmts, n):
    bad = 0
    for (EX, FX, EY, FY, E, F) in fmts:
        x, y = tm.var('x', EX + FX + 3), tm.var('y', EY + FY + 3)
        t = spec(sp.unpack(x, EX, FX), sp.unpack(y, EY, FY), E, F).bits()
        for _ in range(n):
            a = rnd(rng, EX, FX)
            b = rnd(rng, EY, FY, a[2])
            g = split(tm.evaluate([t], {'x': pack(a, EX, FX), 'y': pack(b, EY, FY)})[0], E, F)
            w = ref(a, b, EX, FX, EY, FY, E, F)
            if not agree(g, w):
                print('SPEC ERROR', name, (EX, FX, EY, FY, E, F), a, b, g, w)
                bad += 1
                if bad > 3:
                    return bad
    return bad


def engine(rng, n=60):
    """random terms: evaluator against the bit-blaster + SAT solver, both polarities"""
    bad = 0
    for it in range(n):
        w = rng.choice([1, 3, 5, 8])
        vs = [tm.var('e%d_%d' % (w, i), w) for i in range(3)]
        pool = list(vs) + [tm.const(rng.getrandbits(w), w)]
        for _ in range(12):
            op = rng.choice(['add', 'sub', 'and_', 'or_', 'xor', 'mul', 'ite', 'shl', 'lshr', 'udiv', 'urem', 'ashr'])
            a, b, c = rng.choice(pool), rng.choice(pool), rng.choice(pool)
            if op == 'ite':
                t = tm.ite(tm.ult(a, b), c, a)
            else:
                if op in ('udiv', 'urem'):
                    b = tm.or_(b, tm.const(1, w))
                t = getattr(tm, op)(a, b)
            pool.append(t)
        env = {v.a[0] if isinstance(v.a, tuple) else 'x': rng.getrandbits(w) for v in vs}
        env = {'e%d_%d' % (w, i): rng.getrandbits(w) for i in range(3)}
        t = pool[-1]
        x = tm.evaluate([t], env)[0]
        fix = [tm.eq(v, tm.const(env['e%d_%d' % (w, i)], w)) for i, v in enumerate(vs)]
        r1 = blast.check_sat(fix + [tm.eq(t, tm.const(x, w))])
        r2 = blast.check_sat(fix + [tm.ne(t, tm.const(x, w))])
        if r1.status != 'sat' or r2.status != 'unsat':
            print('ENGINE ERROR', it, tm.show(t), env, x, r1.status, r2.status)
            bad += 1
    return bad


def fval(v, E, F):
    """order value: (rank, rational)"""
    k, s, e, f = v
    if k == 2:
        return (-1 if s else 1, Q(0))
    return (0, val(v, E, F) if k else Q(0))


def convert_test(rng):
    bad = 0
    for (EX, FX, E, F) in [(4, 3, 4, 3), (4, 5, 5, 3), (5, 3, 4, 6), (8, 23, 5, 10), (8, 10, 8, 9), (6, 9, 6, 4), (5, 10, 11, 52), (11, 52, 8, 23), (4, 8, 4, 7)]:
        x = tm.var('x', EX + FX + 3)
        t = sp.convert_spec(sp.unpack(x, EX, FX), E, F).bits()
        for _ in range(300):
            a = rnd(rng, EX, FX)
            g = split(tm.evaluate([t], {'x': pack(a, EX, FX)})[0], E, F)
            w = rn(val(a, EX, FX), E, F) if a[0] == 1 else (a[0], a[1], None, None)
            if not agree(g, w) or g[1] != a[1]:
                print('SPEC ERROR convert', (EX, FX, E, F), a, g, w)
                bad += 1
    return bad


def compare_test(rng):
    bad = 0
    ops = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b,
           'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b}
    for (EX, FX, EY, FY) in [(4, 3, 4, 3), (4, 5, 5, 3), (8, 23, 5, 10), (6, 9, 6, 4)]:
        x, y = tm.var('x', EX + FX + 3), tm.var('y', EY + FY + 3)
        ts = [sp.compare_spec(o, sp.unpack(x, EX, FX), sp.unpack(y, EY, FY)) for o in ops]
        for _ in range(600):
            a = rnd(rng, EX, FX)
            b = rnd(rng, EY, FY, a[2])
            if rng.randrange(3) == 0 and (EX, FX) == (EY, FY):
                b = (a[0], rng.randrange(2), a[2], a[3] if rng.randrange(2) else b[3])
            g = tm.evaluate(ts, {'x': pack(a, EX, FX), 'y': pack(b, EY, FY)})
            if 3 in (a[0], b[0]):
                w = [int(o == 'ne') for o in ops]
            else:
                w = [int(f(fval(a, EX, FX), fval(b, EY, FY))) for f in ops.values()]
            if g != w:
                print('SPEC ERROR compare', (EX, FX, EY, FY), a, b, g, w)
                bad += 1
    return bad


def ieee_val(b, E, F):
    """('nan'|'inf'|'num', sign, rational)"""
    s, e, f = b >> (E + F), b >> F & ((1 << E) - 1), b & ((1 << F) - 1)
    B = (1 << (E - 1)) - 1
    if e == (1 << E) - 1:
        return ('nan' if f else 'inf', s, None)
    q = Q(2) ** (max(e, 1) - B - F) * (f + ((1 << F) if e else 0))
    return ('num', s, -q if s else q)


def ieee_rn(q, E, F, zs=0):
    """encoding of q rounded to nearest even"""
    B = (1 << (E - 1)) - 1
    if q == 0:
        return zs << (E + F)
    s = int(q < 0)
    a = abs(q)
    e = a.numerator.bit_length() - a.denominator.bit_length()
    if Q(2) ** e > a:
        e -= 1
    e = max(e, 1 - B)
    m = a / Q(2) ** (e - F)
    n = m.numerator // m.denominator
    r = m - n
    if r > Q(1, 2) or (r == Q(1, 2) and n & 1):
        n += 1
    enc = ((e + B - 1) << F) + n
    return (s << (E + F)) | min(enc, ((1 << E) - 1) << F)


def ieee_ref(op, a, b, E, F):
    ka, sa, qa = ieee_val(a, E, F)
    kb, sb, qb = ieee_val(b, E, F)
    s = sa ^ sb
    INF = ((1 << E) - 1) << F
    if 'nan' in (ka, kb):
        return None
    if op == 'add':
        if ka == kb == 'inf':
            return None if s else a
        if ka == 'inf':
            return a
        if kb == 'inf':
            return b
        return ieee_rn(qa + qb, E, F, (sa & sb) if qa == 0 and qb == 0 else 0)
    if op == 'mul':
        if 'inf' in (ka, kb):
            return None if (qa == 0 or qb == 0) else s << (E + F) | INF
        return ieee_rn(qa * qb, E, F, s)
    if ka == 'inf':
        return None if kb == 'inf' else s << (E + F) | INF
    if kb == 'inf':
        return s << (E + F)
    if qb == 0:
        return None if qa == 0 else s << (E + F) | INF
    return ieee_rn(qa / qb, E, F, s)


def ieee_test(rng):
    bad = 0
    for E, F in ((8, 23), (11, 52), (3, 4), (5, 10)):
        w = E + F + 1
        x, y = tm.var('x', w), tm.var('y', w)
        n64 = tm.var('n', 12)
        ts = [ie.add_(x, y, E, F), ie.mul_(x, y, E, F), ie.div_(x, y, E, F)] + [ie.cmp_(o, x, y, E, F) for o in ('eq', 'lt', 'le', 'gt', 'ge', 'ne')]
        ts += [ie.ldexp(x, n64, E, F), *ie.frexp(x, E, F), ie.round_away(x, E, F), ie.trunc_(x, E, F), ie.floor_(x, E, F), ie.ceil_(x, E, F)]
        ts += [*ie.to_int(x, E, F, 16, False), *ie.to_int(x, E, F, 16, True), ie.from_uint(y, E, F), ie.from_sint(y, E, F)]
        ts += [ie.convert(x, E, F, 11, 52), ie.convert(x, E, F, 8, 23), ie.convert(x, E, F, 5, 10)]
        for _ in range(400):
            def r():
                k = rng.randrange(5)
                e = rng.getrandbits(E) if k else rng.choice([0, (1 << E) - 1])
                if k == 1:
                    e = min((1 << E) - 1, max(0, (1 << (E - 1)) + rng.randrange(-3, F + 3)))
                return (rng.randrange(2) << E | e) << F | rnd_bits(rng, F)
            a, b = r(), r()
            if rng.randrange(3) == 0:
                b = (b & ~(((1 << E) - 1) << F)) | (max(0, min((1 << E) - 1, (a >> F & ((1 << E) - 1)) + rng.randrange(-4, 5))) << F)
            n = rng.randrange(-40, 41)
            g = tm.evaluate(ts, {'x': a, 'y': b, 'n': n % 4096})
            isn = lambda v, E=E, F=F: ieee_val(v, E, F)[0] == 'nan'
            for i, op in enumerate(('add', 'mul', 'div')):
                want = ieee_ref(op, a, b, E, F)
                if (isn(g[i]) if want is None else g[i] == want) is False:
                    print('SPEC ERROR ieee', op, E, F, hex(a), hex(b), hex(g[i]), want)
                    bad += 1
            (ka, sa, qa), (kb, sb, qb) = ieee_val(a, E, F), ieee_val(b, E, F)
            if 'nan' in (ka, kb):
                want = [0, 0, 0, 0, 0, 1]
            else:
                va, vb = [((-1 if s else 1), Q(0)) if k == 'inf' else (0, q) for k, s, q in ((ka, sa, qa), (kb, sb, qb))]
                want = [int(t) for t in (va == vb, va < vb, va <= vb, va > vb, va >= vb, va != vb)]
            if g[3:9] != want:
                print('SPEC ERROR ieee compare', hex(a), hex(b), g[3:9], want)
                bad += 1
            if ka == 'num':
                want = [ieee_rn(qa * Q(2) ** n, E, F, sa)]
                if qa == 0:
                    want += [a, 0]
                else:
                    p = 0
                    m = abs(qa)
                    p = m.numerator.bit_length() - m.denominator.bit_length()
                    while m / Q(2) ** p >= 1:
                        p += 1
                    while m / Q(2) ** p < Q(1, 2):
                        p -= 1
                    want += [ieee_rn(qa / Q(2) ** p, E, F), p % 2**32]
                fl = lambda q: q.numerator // q.denominator
                ra = fl(abs(qa) + Q(1, 2)) * (-1 if sa else 1)
                tr = fl(abs(qa)) * (-1 if sa else 1)
                want += [ieee_rn(Q(ra), E, F, sa), ieee_rn(Q(tr), E, F, sa), ieee_rn(Q(fl(qa)), E, F, sa), ieee_rn(Q(-fl(-qa)), E, F, sa)]
                if g[9:16] != want:
                    print('SPEC ERROR ieee unary', E, F, hex(a), n, g[9:16], want)
                    bad += 1
                ok = int(0 <= tr < 65536), int(-32768 <= tr < 32768)
                if (g[17], g[19]) != ok or (ok[0] and g[16] != tr) or (ok[1] and g[18] != tr % 65536):
                    print('SPEC ERROR ieee to_int', E, F, hex(a), tr, g[16:20])
                    bad += 1
                want = [ieee_rn(qa, e2, f2, sa) for e2, f2 in ((11, 52), (8, 23), (5, 10))]
                if g[22:25] != want:
                    print('SPEC ERROR ieee convert', E, F, hex(a), g[22:25], want)
                    bad += 1
            elif g[17] or g[19]:
                print('SPEC ERROR ieee to_int of non-finite')
                bad += 1
            want = [ieee_rn(Q(b), E, F), ieee_rn(Q(b - (1 << w) if b >> (w - 1) else b), E, F)]
            if g[20:22] != want:
                print('SPEC ERROR ieee from_int', E, F, hex(b), g[20:22], want)
                bad += 1
            if bad > 5:
                return bad
    for _ in range(300):       # the host's doubles agree with the reference
        a, b = [struct.unpack('<d', struct.pack('<Q', rng.getrandbits(64) & ~(1 << 62) | (rng.randrange(2) << 62)))[0] for _ in range(2)]
        for op, f in (('add', lambda p, q: p + q), ('mul', lambda p, q: p * q), ('div', lambda p, q: p / q if q else math.nan)):
            ia, ib = [struct.unpack('<Q', struct.pack('<d', v))[0] for v in (a, b)]
            want = ieee_ref(op, ia, ib, 11, 52)
            got = struct.unpack('<Q', struct.pack('<d', f(a, b)))[0]
            if want is not None and want != got and b:
                print('REFERENCE ERROR', op, a, b)
                bad += 1
    return bad


EXTRA = [convert_test, compare_test, ieee_test]      # further self-tests


def main():
    rng = random.Random(12345)
    same = [(E, F, E, F, E, F) for E, F in FMT]
    mixed = [(8, 10, 8, 16, 8, 16), (6, 12, 8, 9, 8, 12), (5, 8, 7, 13, 7, 13)]
    bad = check('add', lambda x, y, E, F: sp.add_spec(x, y, E, F), ref_add, rng, same + mixed, 400)
    bad += check('mul', sp.mul_spec, ref_mul, rng, same + [(8, 10, 8, 16, 8, 16), (6, 12, 6, 9, 6, 23), (5, 8, 5, 13, 5, 4)], 400)
    if hasattr(sp, 'div_spec'):
        bad += check('div', sp.div_spec, ref_div, rng, [(E, F, E, F, E, F) for E, F in FMT], 200)
    bad += engine(rng)
    for f in EXTRA:
        bad += f(rng)
    print('specification self-test: %s' % ('ok' if not bad else '%d errors' % bad))
    return 1 if bad else 0
