"""P05: addition of operands of different formats"""
from vc.core import Group
from . import fpadd

V = [('add', 'fp_flopoco_primitives.hpp', 'add<%d,%d>(X,Y)'),
     ('single_v1', 'fp_flopoco_add_single_v1.hpp', 'add_single<%d,%d>(X,Y)'),
     ('single_v2', 'fp_flopoco_add_single_v2.hpp', 'add_single<%d,%d>(X,Y)'),
     ('single_v3', 'fp_flopoco_add_single_v3.hpp', 'add_single<%d,%d>(X,Y)'),
     ('single_v4', 'fp_flopoco_add_single_v4.hpp', 'add_single<%d,%d>(X,Y)'),
     ('single_v5', 'fp_flopoco_add_single_v5.hpp', 'add_single_v5<%d,%d>(X,Y)')]
#      EX  FX  EY  FY
QUICK = [(8, 10, 8, 16), (8, 16, 8, 10), (6, 12, 8, 12), (8, 12, 6, 12), (5, 8, 7, 13), (7, 13, 5, 8), (5, 13, 7, 8), (7, 8, 5, 13),
         (8, 16, 8, 14), (8, 15, 8, 16), (10, 23, 8, 23), (8, 12, 11, 20), (4, 4, 9, 11), (5, 20, 9, 5)]
FULL = QUICK + [(10, 16, 8, 16), (12, 40, 8, 40), (8, 40, 12, 40), (8, 27, 8, 26), (8, 20, 8, 30), (8, 30, 8, 20), (8, 23, 11, 52),
                (11, 52, 8, 23), (4, 3, 12, 32), (12, 3, 4, 32), (4, 32, 12, 3), (5, 10, 8, 23), (8, 7, 8, 23), (5, 29, 6, 20), (4, 13, 5, 13)]


def groups(tier):
    gs = []
    for v, h, e in V:
        for n, (EX, FX, EY, FY) in enumerate(QUICK if tier == 'quick' else FULL):
            E, F = max(EX, EY), max(FX, FY)
            if v == 'single_v3' and not 11 <= F <= 26:
                continue
            if tier == 'quick' and v in ('single_v2', 'single_v3', 'single_v4') and n not in (1, 2, 4, 7):
                continue
            name = '%s_%d_%d_%d_%d' % (v, EX, FX, EY, FY)
            j = fpadd.job('add_' + v, E, F, e % (E, F), EX, FX, EY, FY)
            gs.append(Group(name, '#include "thls/tops/%s"' % h, [j], weight=F * F))
    return gs
