"""P02: slicing, concatenation, extension, selection, native conversion"""
from vc.core import Group, Job
from vc import terms as tm
from vc.terms import const, zext, trunc, ext, cat, eq, ult, ite, not_, orl, andl, and_

HDR = '#include "thls/tops/fw_uint.hpp"'


def slices(W, full):
    pts = sorted(set(p for p in (0, 1, 2, 7, 8, 15, 16, 30, 31, 32, 33, 34, 47, 62, 63, 64, 65, 66, 95, 96, 126, 127,
                                 W // 2, W - 3, W - 2, W - 1) if 0 <= p < W))
    if not full and len(pts) > 9:
        keep = [p for p in pts if p in (0, 1, 31, 32, 63, 64, W - 2, W - 1, W // 2)]
        pts = keep
    return [(h, l) for h in pts for l in pts if l <= h]


def J(name, code, ins, w, post, pre=None, desc=None):
    """w: result width, 0 for an empty result"""
    if w == 0:
        code = '  auto Z=(%s); static_assert(Z.width==0,"width"); r[0]=(uint64_t)Z.bits;' % code
        return Job(name, code, ins, [('r', 1)], lambda I, O: [('empty result is zero', eq(O['r'], const(0, 1)))], pre=pre,
                   desc=desc or name)
    code = '  vw::st<%d>(r, %s);' % (w, code)
    return Job(name, code, ins, [('r', w)], lambda I, O: [('every bit is where it belongs', eq(O['r'], post(I)))], pre=pre,
               desc=desc or name)


def A(n, w):
    return 'vw::ld<%d>(%s)' % (w, n)


def shape(W, tier):
    js = []
    a = [('a', W)]
    d = ' at width %d' % W
    full = tier != 'quick'
    for h, l in slices(W, full):
        js.append(J('get_bits_%d_%d' % (h, l), 'get_bits<%d,%d>(%s)' % (h, l, A('a', W)), a, h - l + 1,
                    lambda I, h=h, l=l: ext(I['a'], h, l), desc='get_bits<%d,%d>' % (h, l) + d))
    for b in sorted(set((0, W // 2, W - 1, min(31, W - 1), min(32, W - 1), min(63, W - 1), min(64, W - 1)))):
        js.append(J('get_bit_%d' % b, 'get_bit<%d>(%s)' % (b, A('a', W)), a, 1, lambda I, b=b: tm.bit(I['a'], b), desc='get_bit' + d))
    for B in sorted(set(x for x in (0, 1, W // 2, W - 1, W, 31, 32, 33, 63, 64, 65) if 0 <= x <= W)):
        if B < W or True:
            js.append(J('take_lsbs_%d' % B, 'take_lsbs<%d>(%s)' % (B, A('a', W)), a, B, lambda I, B=B: ext(I['a'], B - 1, 0), desc='take_lsbs' + d))
            js.append(J('take_msbs_%d' % B, 'take_msbs<%d>(%s)' % (B, A('a', W)), a, B, lambda I, B=B: ext(I['a'], W - 1, W - B), desc='take_msbs' + d))
            js.append(J('drop_lsbs_%d' % B, 'drop_lsbs<%d>(%s)' % (B, A('a', W)), a, W - B, lambda I, B=B: ext(I['a'], W - 1, B), desc='drop_lsbs' + d))
            js.append(J('drop_msbs_%d' % B, 'drop_msbs<%d>(%s)' % (B, A('a', W)), a, W - B, lambda I, B=B: ext(I['a'], W - 1 - B, 0), desc='drop_msbs' + d))
    js.append(J('take_lsb', 'take_lsb(%s)' % A('a', W), a, 1, lambda I: tm.bit(I['a'], 0), desc='take_lsb' + d))
    js.append(J('take_msb', 'take_msb(%s)' % A('a', W), a, 1, lambda I: tm.bit(I['a'], W - 1), desc='take_msb' + d))
    if W > 1:
        js.append(J('drop_lsb', 'drop_lsb(%s)' % A('a', W), a, W - 1, lambda I: ext(I['a'], W - 1, 1), desc='drop_lsb' + d))
        js.append(J('drop_msb', 'drop_msb(%s)' % A('a', W), a, W - 1, lambda I: ext(I['a'], W - 2, 0), desc='drop_msb' + d))
    for P in sorted(set(x for x in (1, 2, 31, 32, 33, 63, 64, 65, 128 - W, 32 - W, 33 - W, 64 - W, 65 - W) if 0 < x <= 128 - W)):
        js.append(J('zpad_hi_%d' % P, 'zpad_hi<%d>(%s)' % (P, A('a', W)), a, W + P, lambda I, P=P: cat(const(0, P), I['a']), desc='zpad_hi' + d))
        js.append(J('zpad_lo_%d' % P, 'zpad_lo<%d>(%s)' % (P, A('a', W)), a, W + P, lambda I, P=P: cat(I['a'], const(0, P)), desc='zpad_lo' + d))
        js.append(J('opad_hi_%d' % P, 'opad_hi<%d>(%s)' % (P, A('a', W)), a, W + P, lambda I, P=P: cat(const(-1, P), I['a']), desc='opad_hi' + d))
        js.append(J('opad_lo_%d' % P, 'opad_lo<%d>(%s)' % (P, A('a', W)), a, W + P, lambda I, P=P: cat(I['a'], const(-1, P)), desc='opad_lo' + d))
    js.append(J('zpad_hi_0', 'zpad_hi<0>(%s)' % A('a', W), a, W, lambda I: I['a'], desc='zpad_hi<0>' + d))
    js.append(J('zpad_lo_0', 'zpad_lo<0>(%s)' % A('a', W), a, W, lambda I: I['a'], desc='zpad_lo<0>' + d))
    for B in sorted(set(x for x in (1, 2, W - 1, W, W + 1, 31, 32, 33, 64, 65, 128) if 0 < x <= 128)):
        js.append(J('resize_%d' % B, 'resize<%d>(%s)' % (B, A('a', W)), a, B,
                    lambda I, B=B: zext(I['a'], B) if B >= W else trunc(I['a'], B), desc='resize' + d))
        if B >= W:
            js.append(J('extu_%d' % B, 'extu<%d>(%s)' % (B, A('a', W)), a, B, lambda I, B=B: zext(I['a'], B), desc='extu' + d))
    js.append(J('copybit', 'copybit<%d>(%s)' % (W, A('c', 1)), [('c', 1)], W, lambda I: ite(I['c'], const(-1, W), const(0, W)), desc='copybit' + d))
    js.append(J('checked_cast', '(checked_cast<%d,%d>(%s))' % (W, W, A('a', W)), a, W, lambda I: I['a'], desc='checked_cast' + d))
    js.append(J('zg', 'zg<%d>()' % W, a, W, lambda I: const(0, W), desc='zg' + d))
    js.append(J('og', 'og<%d>()' % W, a, W, lambda I: const(-1, W), desc='og' + d))
    js.append(J('cg', 'cg<%d>((int)c[0])' % W, [('c', min(W, 31))], W, lambda I: zext(I['c'], W), desc='cg' + d))
    return js


def native(W):
    js = []
    a = [('a', W)]
    d = ' at width %d' % W
    lim = min(W, 31)
    js.append(Job('to_int', '  int x=%s.to_int(); r[0]=(uint64_t)(uint32_t)x;' % A('a', W), a, [('r', 32)],
                  lambda I, O: [('value kept', eq(zext(O['r'], max(W, 32)), zext(I['a'], max(W, 32))))],
                  pre=(lambda I: eq(ext(I['a'], W - 1, 31), const(0, W - 31))) if W > 31 else None, desc='to_int' + d))
    if W <= 64:
        js.append(Job('to_u64', '  r[0]=%s.to_uint64();' % A('a', W), a, [('r', 64)],
                      lambda I, O: [('value kept', eq(O['r'], zext(I['a'], 64)))], desc='to_uint64' + d))
        js.append(J('from_u64', 'fw_uint<%d>::from_uint64(%s.to_uint64())' % (W, A('a', W)), a, W, lambda I: I['a'], desc='from_uint64(to_uint64)' + d))
        js.append(J('from_u64_raw', 'fw_uint<%d>::from_uint64(a[0])' % W, a, W, lambda I: I['a'], desc='from_uint64' + d))
    if W <= 32:
        js.append(Job('to_u32', '  r[0]=%s.to_uint32();' % A('a', W), a, [('r', 32)],
                      lambda I, O: [('value kept', eq(O['r'], zext(I['a'], 32)))], desc='to_uint32' + d))
    if W == 1:
        js.append(Job('to_bool', '  r[0]=%s.to_bool();' % A('a', W), a, [('r', 1)],
                      lambda I, O: [('value kept', eq(O['r'], I['a']))], desc='to_bool' + d))
    if W > 64:
        return js       # the string constructor is not instantiable above 64 bits
    pat = (0x5DEECE66D1234567_89ABCDEF13579BDF >> 3) & ((1 << W) - 1)
    s = bin(pat)[2:].zfill(W)
    js.append(J('parse', 'fw_uint<%d>("0b%s")' % (W, s), [('c', 1)], W, lambda I: const(pat, W), desc='binary constant' + d))
    s2 = '_'.join(s[i:i + 5] for i in range(0, len(s), 5))
    js.append(J('parse_', 'fw_uint<%d>("0b%s")' % (W, s2), [('c', 1)], W, lambda I: const(pat, W), desc='binary constant with separators' + d))
    return js


def concats(tier):
    prs = [(1, 1), (1, 31), (31, 1), (16, 16), (1, 32), (32, 1), (2, 31), (20, 13), (32, 32), (31, 33), (33, 31), (63, 1), (1, 63), (1, 64),
           (64, 1), (33, 33), (40, 60), (64, 64), (127, 1), (1, 127), (3, 100), (63, 65), (65, 63)]
    js = []
    for x, y in prs:
        js.append(J('c2_%d_%d' % (x, y), 'concat(%s,%s)' % (A('a', x), A('b', y)), [('a', x), ('b', y)], x + y,
                    lambda I: cat(I['a'], I['b']), desc='concat of %d and %d' % (x, y)))
        js.append(Job('rt_%d_%d' % (x, y),
                      '  auto C=concat(%s,%s); vw::st<%d>(p, take_msbs<%d>(C)); vw::st<%d>(q, take_lsbs<%d>(C));' % (A('a', x), A('b', y), x, x, y, y),
                      [('a', x), ('b', y)], [('p', x), ('q', y)],
                      lambda I, O: [('high part comes back', eq(O['p'], I['a'])), ('low part comes back', eq(O['q'], I['b']))],
                      desc='slices of a concatenation'))
    for W in (2, 31, 32, 33, 64, 65, 100, 128):
        for k in sorted(set((1, W // 2, W - 1, min(W - 1, 32), min(W - 1, 64)))):
            js.append(J('split_%d_%d' % (W, k), 'concat(get_bits<%d,%d>(%s),get_bits<%d,0>(%s))' % (W - 1, k, A('a', W), k - 1, A('a', W)),
                        [('a', W)], W, lambda I: I['a'], desc='concatenation of slices'))
    js.append(J('c0l', 'concat(fw_uint<0>(),%s)' % A('a', 40), [('a', 40)], 40, lambda I: I['a'], desc='concat with empty'))
    js.append(J('c0r', 'concat(%s,fw_uint<0>())' % A('a', 40), [('a', 40)], 40, lambda I: I['a'], desc='concat with empty'))
    js.append(J('c1', 'concat(%s)' % A('a', 77), [('a', 77)], 77, lambda I: I['a'], desc='concat of one'))
    for ws in ((1, 2, 3), (10, 11, 12), (32, 1, 31), (2, 60, 30), (40, 40, 48), (2, 1, 5, 10), (2, 1, 8, 23), (2, 1, 11, 52), (32, 32, 32, 32), (1, 63, 63, 1)):
        ns = 'abcd'[:len(ws)]
        js.append(J('c_' + '_'.join(map(str, ws)), 'concat(%s)' % ','.join(A(n, w) for n, w in zip(ns, ws)), list(zip(ns, ws)), sum(ws),
                    lambda I, ns=ns: cat(*[I[n] for n in ns]), desc='concat of %s' % (ws,)))
    for W, n in ((1, 4), (5, 3), (16, 8), (33, 3), (32, 4), (64, 2)):
        ins = [('v%d' % i, W) for i in range(n)]
        arr = 'fw_uint<%d> V[%d]={%s};' % (W, n, ','.join(A('v%d' % i, W) for i in range(n)))
        js.append(Job('ca_%d_%d' % (W, n), '  %s vw::st<%d>(r, concat_array<%d,0>(V));' % (arr, W * n, n - 1), ins, [('r', W * n)],
                      lambda I, O, n=n: [('highest index first', eq(O['r'], cat(*[I['v%d' % i] for i in reversed(range(n))])))],
                      desc='concat_array'))
        if n > 2:
            js.append(Job('cas_%d_%d' % (W, n), '  %s vw::st<%d>(r, concat_array<%d,1>(V));' % (arr, W * (n - 2), n - 2), ins, [('r', W * (n - 2))],
                          lambda I, O, n=n: [('highest index first', eq(O['r'], cat(*[I['v%d' % i] for i in reversed(range(1, n - 1))])))],
                          desc='concat_array sub-range'))
    return js


def selects():
    js = []
    for W in (1, 8, 33, 80):
        for n in range(1, 7):
            for kind in ('f', 'b'):
                ins = [('c', n)] + [('v%d' % i, W) for i in range(n + 1)]
                cond = [('fw_uint<1>((int)((c[0]>>%d)&1))' if kind == 'f' else 'bool((c[0]>>%d)&1)') % i for i in range(n)]
                args = []
                for i in range(n):
                    args += ['C%d' % i, 'V%d' % i]
                decl = ' '.join('fw_uint<%d> V%d=%s;' % (W, i, A('v%d' % i, W)) for i in range(n + 1))
                decl += ' '.join('%s C%d=%s;' % ('fw_uint<1>' if kind == 'f' else 'bool', i, cond[i]) for i in range(n))

                def post(I, O, n=n):
                    e = I['v%d' % n]
                    for i in reversed(range(n)):
                        e = ite(tm.bit(I['c'], i), I['v%d' % i], e)
                    return [('the first true condition decides', eq(O['r'], e))]
                js.append(Job('sel_%s_%d_%d' % (kind, n, W), '  %s vw::st<%d>(r, select(%s,V%d));' % (decl, W, ','.join(args), n), ins, [('r', W)], post,
                              desc='select with %d conditions' % n))
    for WA, WD in ((1, 3), (3, 8), (4, 33), (6, 5)):
        js.append(Job('lut_%d_%d' % (WA, WD),
                      '  lut<%d,%d> L([](int i){ return (i*5+3)&%d; }); vw::st<%d>(r, L(%s));' % (WD, WA, (1 << min(WD, 20)) - 1, WD, A('a', WA)),
                      [('a', WA)], [('r', WD)],
                      lambda I, O, WA=WA, WD=WD: [('entry of the address', eq(O['r'], _lut(I['a'], [((i * 5 + 3) & ((1 << min(WD, 20)) - 1)) for i in range(1 << WA)], WD)))],
                      desc='lut lookup'))
    return js


def _lut(a, vals, W):
    r = const(vals[-1], W)
    for i, v in enumerate(vals[:-1]):
        r = ite(eq(a, const(i, a.w)), const(v, W), r)
    return r


def groups(tier):
    ws = [1, 2, 3, 8, 17, 31, 32, 33, 34, 47, 63, 64, 65, 66, 90, 127, 128] if tier == 'quick' else list(range(1, 129))
    gs = [Group('shape%d' % W, HDR, shape(W, tier)) for W in ws]
    nat = []
    gs += [Group('native%d' % W, HDR, native(W)) for W in ws]
    gs.append(Group('concat', HDR, concats(tier)))
    gs.append(Group('select', HDR, selects()))
    return gs
