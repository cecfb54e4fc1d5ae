"""P16: bit heaps preserve the represented sum"""
from functools import reduce
from vc.core import Group, Job, Case
from vc import terms as tm, arith

ASSUMPTIONS = ['writing to std::cerr / std::cout has no effect on the values computed (stream calls are skipped)']

# ghost observers: the number of bits of every column, and the bits themselves
PRE = '''#include "thls/tops/fp_flopoco_primitives.hpp"
#include "thls/tops/bit_heap.hpp"
#include "thls/tops/bit_heap_mul.hpp"
#include "vw.hpp"
namespace gh {
using namespace thls;
template<int H> struct put { static void go(uint64_t *d, const fw_uint<H> &x){ vw::st<H>(d, x); } };
template<> struct put<0> { static void go(uint64_t *, const fw_uint<0> &){} };
template<class T> struct col;
template<int H> struct col<bit_heap_root<H> > {
  static void go(uint64_t *h, uint64_t *b, const bit_heap_root<H> &x){ h[0]=H; put<H>::go(b, x.bits); } };
template<int H,class L> struct col<bit_heap_link<H,L> > {
  static void go(uint64_t *h, uint64_t *b, const bit_heap_link<H,L> &x){ h[L::width]=H; put<H>::go(b+L::width, x.bits); col<L>::go(h,b,x.lsbs); } };
template<class T> void look(uint64_t *h, uint64_t *b, const T &x){ col<T>::go(h,b,x); }
template<int H0,int... R> struct mk;
template<int H0> struct mk<H0> { typedef bit_heap_root<H0> t; static t go(const uint64_t *p){ return t(ldw(p)); }
  static fw_uint<H0> ldw(const uint64_t *p){ return vw::ld<H0>(p); } };
template<int H0,int H1,int... R> struct mk<H0,H1,R...> { typedef typename mk<H1,R...>::t l; typedef bit_heap_link<H0,l> t;
  static t go(const uint64_t *p){ return t(mk<H0>::ldw(p+1+sizeof...(R)), mk<H1,R...>::go(p)); } };
template<> inline fw_uint<0> mk<0>::ldw(const uint64_t *){ return zg<0>(); }
}
'''


def popcount(x, w):
    return reduce(tm.add, [tm.zext(tm.bit(x, i), w) for i in range(x.w)])


def value(cols, W):
    """cols: bits of each column from the least significant up, (number of bits, word)"""
    t = tm.const(0, W)
    for i, (h, b) in enumerate(cols):
        if i < W:
            for k in range(h):
                t = tm.add(t, tm.shlc(tm.zext(tm.bit(b, k), W), i))
    return t


def total(xs, W):
    return reduce(tm.add, [tm.trunc(x, W) if x.w > W else tm.zext(x, W) for x in xs])


def shape_in(hs):
    """hs from the most significant column down; one 64-bit word per column"""
    return [('x%d' % i, h) for i, h in enumerate(reversed(hs)) if h]


def load(hs, name='A'):
    s = '  uint64_t in%s[%d] = {0};\n' % (name, len(hs))
    for i, h in enumerate(reversed(hs)):
        if h:
            s += '  in%s[%d] = x%d[0];\n' % (name, i, i)
    return s + '  auto %s = gh::mk<%s>::go(in%s);\n' % (name, ','.join(map(str, hs)), name)


def value_in(hs, I, W):
    return value([(h, I['x%d' % i] if h else None) for i, h in enumerate(reversed(hs))], W)


def look(var, W, hmax):
    """observe a heap: its heights and its column words"""
    b = '  uint64_t H[%d]={0}, B[%d]={0}; gh::look(H,B,%s);\n' % (W, W, var)
    for i in range(W):
        b += '  h%d[0]=H[%d]; b%d[0]=B[%d];\n' % (i, i, i, i)
    return b, [('h%d' % i, 8) for i in range(W)] + [('b%d' % i, hmax) for i in range(W)]


def compress_job(hs):
    W = len(hs)
    lk, outs = look('C', W, 2)
    body = load(hs) + '  auto C = compress(A);\n  m[0] = C.max_height; w[0] = C.width;\n' + lk + '  vw::st<%d>(s, bit_heap_collapse(C));' % W

    def post(I, O):
        t = value_in(hs, I, W)
        ps = [('column %d has at most two bits' % i, tm.ult(O['h%d' % i], tm.const(3, 8))) for i in range(W)]
        ps += [('the reported height is at most two', tm.ult(O['m'], tm.const(3, 8))), ('the width is kept', tm.eq(O['w'], tm.const(W, 8))),
               ('the columns of the compressed heap represent the same sum', tm.eq(value([(2, O['b%d' % i]) for i in range(W)], W), t)),
               ('collapsing returns the sum', tm.eq(O['s'], t))]
        return ps
    return Job('compress_' + '_'.join(map(str, hs)), body, shape_in(hs), outs + [('m', 8), ('w', 8), ('s', W)], post,
               desc='compress and collapse of a heap with column heights %s' % hs)


def merge_job(ws, sh=None):
    """integers of several widths, shifted and merged; then compressed and collapsed"""
    n = len(ws)
    sh = sh or [0] * n
    W = max(w + s for w, s in zip(ws, sh))
    e = None
    body = ''
    for i, (w, s) in enumerate(zip(ws, sh)):
        body += '  auto U%d = fw_uint_to_bit_heap(vw::ld<%d>(x%d));\n' % (i, w, i)
        if s:
            body += '  auto S%d = thls::detail::bit_heap_shift_left_impl<%d,decltype(U%d)>::build(U%d);\n' % (i, s, i, i)
        e = ('%s%d' % ('S' if s else 'U', i)) if e is None else 'merge_bit_heaps(%s,%s%d)' % (e, 'S' if s else 'U', i)
    body += '  auto M = %s;\n' % e
    lk, outs = look('M', W, n)
    body += '  w[0] = M.width;\n' + lk + '  vw::st<%d>(s, bit_heap_collapse(compress(M)));' % W

    def post(I, O):
        t = total([tm.shlc(tm.zext(I['x%d' % i], W), sh[i]) for i in range(n)], W)
        ps = [('column %d holds one bit of every operand that reaches it' % c, tm.eq(O['h%d' % c], tm.const(sum(1 for i in range(n) if sh[i] <= c < sh[i] + ws[i]), 8)))
              for c in range(W)]
        # every column keeps exactly the multiset of its bits: same number of ones
        for c in range(W):
            bits = [tm.bit(I['x%d' % i], c - sh[i]) for i in range(n) if sh[i] <= c < sh[i] + ws[i]]
            k = reduce(tm.add, [tm.zext(b, 8) for b in bits], tm.const(0, 8))
            ps.append(('column %d keeps its bits' % c, tm.eq(popcount(O['b%d' % c], 8), k)))
        return ps + [('the heap is as wide as the widest operand', tm.eq(O['w'], tm.const(W, 8))),
                     ('compressing and collapsing gives the sum', tm.eq(O['s'], t))]
    j = Job('merge_' + '_'.join('%dat%d' % p for p in zip(ws, sh)), body, [('x%d' % i, w) for i, w in enumerate(ws)], outs + [('w', 8), ('s', W)], post,
             desc='integers of widths %s shifted by %s, merged, compressed and collapsed' % (ws, sh))
    j.optional = any(sh)
    return j


def pad_job(w, W):
    lk, outs = look('P', W, 1)
    body = '  auto U = fw_uint_to_bit_heap(vw::ld<%d>(x));\n  auto P = pad_bit_heap<%d>(U);\n' % (w, W) + lk + '  vw::st<%d>(s, bit_heap_collapse(P));' % W

    def post(I, O):
        ps = [('column %d' % c, tm.eq(O['b%d' % c], tm.bit(I['x'], c) if c < w else tm.const(0, 1))) for c in range(W)]
        ps += [('column %d has %s' % (c, 'one bit' if c < w else 'no bit'), tm.eq(O['h%d' % c], tm.const(int(c < w), 8))) for c in range(W)]
        return ps + [('collapsing a padded integer returns it', tm.eq(O['s'], tm.zext(I['x'], W)))]
    return Job('pad_%d_%d' % (w, W), body, [('x', w)], outs + [('s', W)], post, desc='an integer of %d bits as a heap, padded to %d columns' % (w, W))


def partial_products(x, y, s, W):
    """the products s is built from, when they are those of slices partitioning x and y; then, by
    distributivity (a lemma), it is enough that s is their shifted sum, whatever their values are"""
    ps = arith.products([s])

    def slices(v):
        out = {}
        for p in ps:
            for t in p.a[:2]:
                for lo in range(v.w - t.w + 1):
                    if tm.ext(v, lo + t.w - 1, lo) is t:
                        out[lo] = t
        lo = 0
        for k in sorted(out):
            if k != lo:
                return None
            lo += out[k].w
        return out if lo == v.w else None
    xs, ys = slices(x), slices(y)
    if not xs or not ys:
        return None
    at, mp, k = {}, {}, 0
    for a, u in xs.items():
        for b, v in ys.items():
            p = tm.mulx(u, v)
            if p.op != 'mulx':
                return None
            at.setdefault(p.id, [p, []])[1].append(a + b)
    X, Y = arith.reals(' '.join('x%d' % a for a in xs)), arith.reals(' '.join('y%d' % b for b in ys))
    zero = arith.lift(0)
    sx, sy = sum((X[i] * (1 << a) for i, a in enumerate(xs)), zero), sum((Y[j] * (1 << b) for j, b in enumerate(ys)), zero)
    sxy = sum((X[i] * Y[j] * (1 << (a + b)) for i, a in enumerate(xs) for j, b in enumerate(ys)), zero)
    if arith.prove_all([('distributivity', [], sx * sy == sxy)])[0]:
        return None
    t = tm.const(0, W)
    for p, sh in at.values():
        f = tm.fresh('p', p.w)
        mp[p.id] = f
        for k in sh:
            t = tm.add(t, tm.shlc(tm.zext(f, W), k))
    return tm.eq(tm.substitute([s], mp)[0], t)


def mul_job(T, WA, WB):
    W = WA + WB
    body = '  auto M = bit_heap_mul<%d>(vw::ld<%d>(x), vw::ld<%d>(y));\n  w[0] = M.width;\n  vw::st<%d>(s, bit_heap_collapse(compress(M)));' % (T, WA, WB, W)

    box = {}

    def post(I, O):
        box['O'] = O
        return [('the collapsed heap is the full product', tm.eq(O['s'], tm.mulx(I['x'], I['y']))), ('the heap has all columns of the product', tm.eq(O['w'], tm.const(W, 8)))]

    def cases(I):
        def derive(run, q):
            d = partial_products(I['x'], I['y'], box['O']['s'], W)
            return d and ([tm.not_(tm.andl(d, tm.eq(box['O']['w'], tm.const(W, 8))))], 1)
        return [Case('', tm.true(), post, derive=derive, direct=True)]
    return Job('mul_%d_%d_%d' % (T, WA, WB), body, [('x', WA), ('y', WB)], [('w', 8), ('s', W)], post, cases=cases if WA + WB > 20 else None, desc='bit_heap_mul<%d> of %d by %d bits' % (T, WA, WB))


def groups(tier):
    shapes = [(1,), (2,), (3,), (4,), (5,), (6,), (7,), (8,), (9,), (11,), (3, 3), (3, 3, 3), (4, 4, 4, 4), (5, 5, 5), (6, 6, 6), (7, 7), (8, 8), (1, 2, 3, 4), (4, 3, 2, 1),
              (0, 3, 0, 5), (3, 0, 0, 4), (1, 7, 0, 2, 3), (5, 1, 6, 2, 4), (3, 3, 3, 3, 3, 3, 3, 3), (2, 2, 2, 2, 3), (3, 2, 2, 2, 2, 2, 2), (1, 1, 1, 1, 1, 1), (2, 2, 2, 2),
              (0, 0, 9), (10, 0), (4, 4, 4, 4, 4, 4, 4, 4), (1, 2, 3, 4, 5, 6, 7), (9, 1, 1, 9), (3,) * 16, (4,) * 12, (5,) * 10, (6,) * 6, (12, 12), (13,), (16,), (1, 0, 4) * 4, (3,) * 24, (7, 5, 3, 1, 7, 5, 3, 1),
              (2, 3) * 8, (0, 0, 0, 6, 6, 6), (10, 9, 8), (1,) * 20 + (3,) * 4]
    merges = [([8, 12], None), ([12, 8, 3], None), ([1, 16, 9], None), ([4, 4, 4, 4, 4], None), ([8, 8, 8], [0, 4, 8]), ([5, 7, 3, 6], [3, 0, 9, 1]), ([16, 16], [0, 16]),
              ([1], None), ([13], [3]), ([6, 6, 6, 6], [0, 1, 2, 3]), ([32, 32, 32], None), ([3, 3], [0, 9]), ([10, 10, 10, 10, 10], None), ([64, 33, 20], None), ([24, 24, 24], [0, 8, 16]), ([20, 20, 20, 20], None), ([50, 14], [14, 0])]
    muls = [(4, 4, 4), (4, 6, 4), (4, 4, 7), (4, 6, 7), (2, 5, 5), (3, 4, 9), (4, 9, 5), (3, 6, 6), (8, 8, 8), (5, 8, 8), (4, 8, 7), (2, 3, 8), (1, 5, 5),
            (64, 36, 40), (40, 33, 33), (64, 64, 64), (8, 16, 16), (8, 20, 12), (8, 24, 24), (12, 20, 30), (17, 24, 24), (16, 20, 9), (40, 30, 50), (9, 33, 12), (3, 9, 12), (4, 12, 16)]
    if tier != 'quick':
        import itertools
        shapes += [h for n in (2, 3) for h in itertools.product(range(0, 6), repeat=n) if h[0] or n == 2]
        shapes += [(n,) for n in range(12, 25)]
        merges += [([64, 64, 64], None), ([7] * 6, None), ([9] * 4, [0, 3, 6, 9]), ([20] * 4, None)]
        muls += [(t, a, b) for t in (2, 3, 4, 5) for a in range(2, 8) for b in range(2, 8)]
    shapes = sorted(set(tuple(h) for h in shapes), key=lambda h: (len(h), h))
    merges = [m for m in merges]
    gs = []
    for i in range(0, len(shapes), 4):
        gs.append(Group('compress_%d' % i, PRE, [compress_job(list(h)) for h in shapes[i:i + 4]], weight=50))
    for i in range(0, len(merges), 2):
        gs.append(Group('merge_%d' % i, PRE, [merge_job(*m) for m in merges[i:i + 2]], weight=60))
    gs.append(Group('pad', PRE, [pad_job(8, 8), pad_job(5, 9), pad_job(1, 4)], weight=30))
    for m in sorted(set(muls)):
        gs.append(Group('mul_%d_%d_%d' % m, PRE, [mul_job(*m)], weight=80))
    return gs
