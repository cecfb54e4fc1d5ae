"""P17: row heaps preserve the sum of their rows"""
from functools import reduce
from vc.core import Group, Job
from vc import terms as tm

PRE = '#include "thls/tops/fp_flopoco_primitives.hpp"\n#include "thls/tops/row_heap.hpp"\n'


def total(xs, W):
    return reduce(tm.add, [tm.zext(x, W) for x in xs])


def ins(ws, n='x'):
    return [('%s%d' % (n, i), w) for i, w in enumerate(ws)]


def compress(W, D):
    body = '  row_heap_holder<%d,%d> h;\n' % (W, D) + ''.join('  h.rows[%d] = vw::ld<%d>(x%d);\n' % (i, W, i) for i in range(D))
    body += '  auto c = compress(h);\n  vw::st<%d>(a, c.rows[0]); vw::st<%d>(b, c.rows[1]); vw::st<%d>(s, collapse(c)); d[0] = c.depth; w[0] = c.width;' % (W, W, W)

    def post(I, O):
        t = total([I['x%d' % i] for i in range(D)], W)
        return [('the two remaining rows sum to the sum of the original rows', tm.eq(tm.add(O['a'], O['b']), t)),
                ('collapsing returns that sum', tm.eq(O['s'], t)),
                ('exactly two rows remain', tm.eq(O['d'], tm.const(2, 8))), ('the width is kept', tm.eq(O['w'], tm.const(W, 8)))]
    return Job('compress_%d_%d' % (W, D), body, ins([W] * D), [('a', W), ('b', W), ('s', W), ('d', 8), ('w', 8)], post,
               desc='compress and collapse of row_heap_holder<%d,%d>' % (W, D))


def build(ws, order):
    """a heap built row by row and heap by heap from rows of different widths"""
    n = len(ws)
    W = max(ws)
    exp = 'fw_uint_to_row_heap(vw::ld<%d>(x0))' % ws[0]
    for i in range(1, n):
        x = 'vw::ld<%d>(x%d)' % (ws[i], i)
        if order == 'rows':
            exp = '(%s + %s)' % (exp, x)
        elif order == 'heaps':
            exp = '(%s + fw_uint_to_row_heap(%s))' % (exp, x)
        else:
            exp = '(fw_uint_to_row_heap(%s) + %s)' % (x, exp)
    idx = list(range(n)) if order != 'front' else list(reversed(range(n)))
    body = '  auto h = %s;\n  d[0] = h.depth; w[0] = h.width;\n' % exp
    body += ''.join('  vw::st<%d>(o%d, h.rows[%d]);\n' % (W, i, k) for k, i in enumerate(idx))
    body += '  vw::st<%d>(s, collapse(compress(h)));' % W

    def post(I, O):
        ps = [('row %d is the zero-extended operand' % i, tm.eq(O['o%d' % i], tm.zext(I['x%d' % i], W))) for i in range(n)]
        ps.append(('the heap has one row per operand', tm.eq(O['d'], tm.const(n, 8))))
        ps.append(('the heap is as wide as the widest operand', tm.eq(O['w'], tm.const(W, 8))))
        ps.append(('compressing and collapsing gives the sum', tm.eq(O['s'], total([I['x%d' % i] for i in range(n)], W))))
        return ps
    return Job('build_%s_%s' % (order, '_'.join(map(str, ws))), body, ins(ws), ins([W] * n, 'o') + [('d', 8), ('w', 8), ('s', W)], post,
               desc='%s of widths %s merged into a row heap' % (order, ws))


def merge(WA, DA, WB, DB):
    W = max(WA, WB)
    body = '  row_heap_holder<%d,%d> A; row_heap_holder<%d,%d> B;\n' % (WA, DA, WB, DB)
    body += ''.join('  A.rows[%d] = vw::ld<%d>(x%d);\n' % (i, WA, i) for i in range(DA)) + ''.join('  B.rows[%d] = vw::ld<%d>(y%d);\n' % (i, WB, i) for i in range(DB))
    body += '  auto h = A + B;\n  d[0] = h.depth; w[0] = h.width;\n' + ''.join('  vw::st<%d>(o%d, h.rows[%d]);\n' % (W, i, i) for i in range(DA + DB))

    def post(I, O):
        ops = [I['x%d' % i] for i in range(DA)] + [I['y%d' % i] for i in range(DB)]
        ps = [('row %d is the zero-extended row of the merged heap' % i, tm.eq(O['o%d' % i], tm.zext(o, W))) for i, o in enumerate(ops)]
        return ps + [('the depths add', tm.eq(O['d'], tm.const(DA + DB, 8))), ('the width is the larger width', tm.eq(O['w'], tm.const(W, 8)))]
    return Job('merge_%d_%d_%d_%d' % (WA, DA, WB, DB), body, ins([WA] * DA) + ins([WB] * DB, 'y'), ins([W] * (DA + DB), 'o') + [('d', 8), ('w', 8)], post,
               desc='row_heap_holder<%d,%d> + row_heap_holder<%d,%d>' % (WA, DA, WB, DB))


def groups(tier):
    gs = []
    cap = {2: 128, 3: 128, 4: 128, 5: 64, 6: 33, 7: 20, 8: 10, 9: 6, 10: 6, 11: 5, 12: 4} if tier == 'quick' else \
        {2: 128, 3: 128, 4: 128, 5: 128, 6: 64, 7: 33, 8: 18, 9: 12, 10: 10, 11: 9, 12: 8, 13: 7, 16: 6}
    for D in cap:
        ws = [1, 2, 7, 16, 20, 31, 33, 64, 128] if tier == 'quick' else list(range(1, 34)) + [48, 63, 64, 65, 96, 127, 128]
        for W in sorted(set([w for w in ws if w <= cap[D]] + [cap[D]])):
            gs.append(Group('c_%d_%d' % (W, D), PRE, [compress(W, D)], weight=W * D * D))
    js = []
    for ws in ([8, 12], [12, 8, 3], [1, 16, 9], [33, 7, 64, 64], [5, 5, 5, 5, 5], [64, 1, 65]):
        for o in ('rows', 'heaps', 'front'):
            js.append(build(ws, o))
    gs.append(Group('build', PRE, js, weight=100))
    gs.append(Group('merge', PRE, [merge(8, 2, 12, 3), merge(17, 3, 5, 2), merge(32, 2, 32, 2), merge(1, 1, 64, 2), merge(70, 2, 64, 3)], weight=100))
    return gs
