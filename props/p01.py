"""P01: fixed-width unsigned integer arithmetic"""
from vc.core import Group, Job
from vc import terms as tm
from vc.terms import const, zext, sext, trunc, ext, cat, eq, ne, ult, ule, add, sub, not_, and_, or_, xor, ite

HDR = '#include "thls/tops/fw_uint.hpp"'
QUICK = list(range(1, 129))


def res(b):
    return lambda f: (lambda I, O: [('result is exact', eq(O['r'], f(I)))])


def ops(W):
    u = ('a', W)
    v = ('b', W)
    L = 'fw_uint<%d> A=vw::ld<%d>(a);' % (W, W)
    LB = L + ' fw_uint<%d> B=vw::ld<%d>(b);' % (W, W)

    def st(e, w=W):
        return ' vw::st<%d>(r, %s);' % (w, e)

    def J(name, code, ins, w, f, pre=None):
        return Job(name, '  ' + code, ins, [('r', w)], lambda I, O: [('result is exact', eq(O['r'], f(I['a'], I.get('b'), I.get('c'))))],
                   pre=(lambda I: pre(I['a'], I.get('b'), I.get('c'))) if pre else None,
                   desc='%s at width %d' % (name, W))
    out = []
    for nm, op, f in (('add', '+', add), ('sub', '-', sub), ('band', '&', and_), ('bor', '|', or_), ('bxor', '^', xor)):
        out.append(J(nm, LB + st('A%sB' % op), [u, v], W, f3(f)))
    for nm, op, f in (('eq', '==', eq), ('ne', '!=', ne), ('lt', '<', ult), ('le', '<=', ule),
                      ('gt', '>', lambda x, y: ult(y, x)), ('ge', '>=', lambda x, y: ule(y, x))):
        out.append(J(nm, LB + st('A%sB' % op, 1), [u, v], 1, f3(f)))
        V = max(W, 32)
        out.append(J(nm + '_int', L + ' int B=(int)b[0];' + st('A%sB' % op, 1), [u, ('b', 32)], 1,
                     (lambda f: lambda a, b, c: f(zext(a, V), zext(b, V)))(f), lambda a, b, c: not_(tm.msb(b))))
    out.append(J('not', L + st('~A'), [u], W, lambda a, b, c: not_(a)))
    ci = lambda b: sext(b, W) if W >= 32 else trunc(b, W)
    Li = L + ' int B=(int)b[0];'
    out.append(J('add_int', Li + st('A+B'), [u, ('b', 32)], W, lambda a, b, c: add(a, ci(b))))
    out.append(J('sub_int', Li + st('A-B'), [u, ('b', 32)], W, lambda a, b, c: sub(a, ci(b))))
    nonneg = lambda a, b, c: not_(tm.msb(b))
    out.append(J('and_int', Li + st('A&B'), [u, ('b', 32)], W, lambda a, b, c: and_(a, ci(b)), nonneg))
    out.append(J('xor_int', Li + st('A^B'), [u, ('b', 32)], W, lambda a, b, c: xor(a, ci(b)), nonneg))
    fit = (lambda a, b, c: eq(ext(b, 31, W), const(0, 32 - W))) if W < 32 else nonneg
    out.append(J('or_int', Li + st('A|B'), [u, ('b', 32)], W, lambda a, b, c: or_(a, ci(b)), fit))
    k = max(1, (W - 1).bit_length())
    inr = lambda a, b, c: ult(b, const(W, 32))
    out.append(J('shl', Li + st('A<<B'), [u, ('b', 32)], W, lambda a, b, c: tm.shl(a, trunc(b, k)), inr))
    out.append(J('shr', Li + st('A>>B'), [u, ('b', 32)], W, lambda a, b, c: tm.lshr(a, trunc(b, k)), inr))
    if W > 1:
        cc = ' fw_uint<1> C=vw::ld<1>(c);'
        out.append(J('add_with_cin', LB + cc + st('add_with_cin(A,B,C)'), [u, v, ('c', 1)], W,
                     lambda a, b, c: add(add(a, b), zext(c, W))))
        out.append(J('add_sub', LB + cc + st('add_sub(C,A,B)'), [u, v, ('c', 1)], W,
                     lambda a, b, c: ite(c, sub(a, b), add(a, b))))
        out.append(J('add_cin', L + cc + st('add_cin(A,C)'), [u, ('c', 1)], W, lambda a, b, c: add(a, zext(c, W))))
    else:
        out.append(J('lor', LB + st('A||B'), [u, v], 1, f3(or_)))
        out.append(J('land', LB + st('A&&B'), [u, v], 1, f3(and_)))
    out.append(Job('assign', '  ' + L + ' fw_uint<%d> B(A), C; C=B; A=C;' % W + st('A'), [u], [('r', W)],
                   lambda I, O: [('copying keeps the value', eq(O['r'], I['a']))], desc='copy and assignment at width %d' % W))
    if W <= 31:
        out.append(Job('from_int', '  int A=(int)a[0]; vw::st<%d>(r, fw_uint<%d>(A));' % (W, W), [('a', 32)], [('r', W)],
                       lambda I, O: [('value kept', eq(O['r'], trunc(I['a'], W)))],
                       pre=lambda I: eq(ext(I['a'], 31, W), const(0, 32 - W)), desc='construction from int at width %d' % W))
    return out


PAIR = HDR + """
#include "vw.hpp"
namespace vp { using namespace thls;
template<int W> static fw_uint<W> ld(const uint64_t*p){ typedef typename fw_uint<W>::bits_t b; return fw_uint<W>::from_bits(b(p[0],p[1])); }
template<int W> static void st(uint64_t*p,const fw_uint<W>&x){ p[0]=x.bits.lo; p[1]=x.bits.hi; } }
"""


def pair_ops(W):
    """the composite (two 64-bit words) representation, used by compilers without a 128-bit integer"""
    L = 'auto A=vp::ld<%d>(a);' % W
    LB = L + ' auto B=vp::ld<%d>(b);' % W
    out = []

    def J(name, code, ins, w, f, pre=None):
        out.append(Job(name, '  ' + code, ins, [('r', w)], lambda I, O: [('result is exact', eq(O['r'], f(I['a'], I.get('b'))))],
                       pre=(lambda I: pre(I['b'])) if pre else None, desc='composite representation: %s at width %d' % (name, W)))
    two = [('a', W), ('b', W)]
    for nm, op, f in (('add', '+', add), ('sub', '-', sub), ('band', '&', and_), ('bor', '|', or_), ('bxor', '^', xor)):
        J(nm, LB + ' vp::st<%d>(r, A%sB);' % (W, op), two, W, f)
    for nm, op, f in (('eq', '==', eq), ('lt', '<', ult), ('le', '<=', ule),
                      ('gt', '>', lambda x, y: ult(y, x)), ('ge', '>=', lambda x, y: ule(y, x))):
        J(nm, LB + ' vw::st<1>(r, A%sB);' % op, two, 1, f)
    J('not', L + ' vp::st<%d>(r, ~A);' % W, two[:1], W, lambda a, b: not_(a))
    k = (W - 1).bit_length()
    for nm, op, f in (('shl', '<<', tm.shl), ('shr', '>>', tm.lshr)):
        J(nm, L + ' vp::st<%d>(r, A%s(int)b[0]);' % (W, op), [('a', W), ('b', 32)], W,
          (lambda f: lambda a, b: f(a, trunc(b, k)))(f), lambda b: ult(b, const(W, 32)))
    if W == 128:
        J('concat', 'vp::st<128>(r, concat(vw::ld<64>(a), vw::ld<64>(b)));', [('a', 64), ('b', 64)], 128, cat)
    return out


def f3(f):
    return lambda a, b, c: f(a, b)


def muls(pairs):
    js = []
    for A, B in pairs:
        js.append(Job('mul_%d_%d' % (A, B), '  vw::st<%d>(r, vw::ld<%d>(a)*vw::ld<%d>(b));' % (A + B, A, B),
                      [('a', A), ('b', B)], [('r', A + B)],
                      lambda I, O: [('full product', eq(O['r'], tm.mulx(I['a'], I['b'])))],
                      desc='operator* at %d x %d' % (A, B)))
        js.append(Job('fmul_%d_%d' % (A, B), '  vw::st<%d>(r, full_mul(vw::ld<%d>(a),vw::ld<%d>(b)));' % (A + B, A, B),
                      [('a', A), ('b', B)], [('r', A + B)],
                      lambda I, O: [('full product', eq(O['r'], tm.mulx(I['a'], I['b'])))],
                      desc='full_mul at %d x %d' % (A, B)))
    for A in sorted(set(a for a, _ in pairs if a <= 64)):
        js.append(Job('square_%d' % A, '  vw::st<%d>(r, square(vw::ld<%d>(a)));' % (2 * A, A),
                      [('a', A)], [('r', 2 * A)],
                      lambda I, O: [('square', eq(O['r'], tm.mulx(I['a'], I['a'])))],
                      desc='square at %d' % A))
    return js


def groups(tier):
    ws = QUICK if tier == 'quick' else list(range(1, 129))
    gs = [Group('w%d' % W, HDR, ops(W)) for W in ws]
    pairs = [Group('pair%d' % W, PAIR, pair_ops(W), cflags=['-U__SIZEOF_INT128__'], contracts=False) for W in (65, 66, 96, 100, 127, 128)]
    for g in pairs:                     # the internal stand-in for 128 bit words has only the operators the library needs
        g.optional = True
    gs += pairs
    prs = [(1, 1), (1, 31), (2, 30), (8, 8), (16, 16), (16, 17), (24, 24), (31, 1), (32, 1), (32, 32), (33, 31), (33, 33),
           (53, 53), (64, 64), (63, 65), (65, 63), (127, 1), (1, 127), (48, 17), (12, 20), (20, 12), (5, 60)]
    if tier != 'quick':
        prs += [(a, b) for a in range(1, 65, 3) for b in range(1, 65, 4)]
        prs = sorted(set(prs))
    for i in range(0, len(prs), 11):
        gs.append(Group('mul%d' % i, HDR, muls(prs[i:i + 11])))
    return gs
