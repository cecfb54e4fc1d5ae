"""P06: multiplication"""
from vc.core import Group, Job
from vc import spec as sp
from .fpadd import fpin

H = '#include "thls/tops/fp_flopoco_primitives.hpp"'


def job(name, expr, E, FX, FY, F):
    body = '''  fp_flopoco<%d,%d> X(vw::ld<%d>(x)); fp_flopoco<%d,%d> Y(vw::ld<%d>(y)); (void)Y;
  vw::st<%d>(r, (%s).bits);''' % (E, FX, E + FX + 3, E, FY, E + FY + 3, E + F + 3, expr)

    def post(I, O):
        x, y = sp.unpack(I['x'], E, FX), sp.unpack(I['y'], E, FY)
        return [('the result is the exact product rounded to nearest even',
                 sp.same(sp.unpack(O['r'], E, F), sp.mul_spec(x, y, E, F)))]
    return Job(name, body, [fpin('x', E, FX), fpin('y', E, FY)], [('r', E + F + 3)], post,
               desc='%s: fp_flopoco<%d,%d> * fp_flopoco<%d,%d> -> fp_flopoco<%d,%d>' % (name, E, FX, E, FY, E, F))


def sqjob(E, F, FR):
    body = '''  fp_flopoco<%d,%d> X(vw::ld<%d>(x)); vw::st<%d>(r, (square<%d,%d,%d,%d,%d,%d>(X,0)).bits);''' % (
        E, F, E + F + 3, E + FR + 3, E, FR, E, F, E, F)

    def post(I, O):
        x = sp.unpack(I['x'], E, F)
        return [('the result is the exact square rounded to nearest even',
                 sp.same(sp.unpack(O['r'], E, FR), sp.mul_spec(x, x, E, FR)))]
    return Job('square', body, [fpin('x', E, F)], [('r', E + FR + 3)], post, desc='square on fp_flopoco<%d,%d>' % (E, F))


def groups(tier):
    gs = []
    if tier == 'quick':
        same = [(4 + (i * 5 + 3 * k) % 9, F) for i, F in enumerate(range(3, 33)) for k in range(3)] + [(8, 23), (11, 52), (5, 10), (4, 3), (12, 32), (12, 3), (4, 32), (15, 60), (20, 20), (28, 12), (30, 3)]
    else:
        same = [(E, F) for F in range(3, 33) for E in range(4, 13)] + [(11, 52), (15, 60), (8, 45)]
    for E, F in sorted(set(same)):
        gs.append(Group('mul_%d_%d' % (E, F), H, [job('mul', 'mul<%d,%d>(X,Y,0)' % (E, F), E, F, F, F)], weight=F))
    mixed = [(8, 10, 16, 16), (8, 16, 10, 16), (8, 16, 16, 10), (8, 10, 10, 20), (8, 10, 10, 21), (8, 10, 10, 22), (8, 10, 10, 25), (8, 23, 23, 47),
             (8, 23, 23, 48), (5, 10, 7, 18), (5, 10, 7, 17), (5, 10, 7, 16), (5, 7, 10, 4), (10, 20, 30, 25), (10, 30, 20, 12), (6, 4, 4, 9), (6, 4, 4, 8),
             (11, 52, 52, 105), (4, 3, 3, 20), (12, 12, 3, 15), (7, 3, 25, 29), (8, 23, 16, 60), (8, 24, 24, 8), (9, 31, 30, 62),
             (6, 52, 52, 8), (11, 52, 52, 23), (8, 60, 60, 3), (11, 52, 40, 10), (5, 62, 62, 20), (16, 45, 60, 32), (28, 30, 12, 30)]
    if tier != 'quick':
        mixed += [(E, FX, FY, F) for E in (4, 8, 12) for FX in (3, 5, 10, 17, 23, 30) for FY in (3, 8, 16, 23, 32)
                  for F in (3, 7, 12, 23, FX + FY - 1, FX + FY, FX + FY + 1, FX + FY + 2, FX + FY + 9)]
    for E, FX, FY, F in sorted(set(mixed)):
        gs.append(Group('mul_%d_%d_%d_%d' % (E, FX, FY, F), H,
                        [job('mul_v1', 'mul_v1<%d,%d>(X,Y,0)' % (E, F), E, FX, FY, F)], weight=F))
    for E, F, FR in [(8, 23, 23), (5, 10, 12), (6, 9, 19), (6, 9, 25)]:
        gs.append(Group('square_%d_%d_%d' % (E, F, FR), H, [sqjob(E, F, FR)], weight=F))
    return gs
