"""P04: every single-path adder (add_single in five versions, add_small)"""
from . import fpadd

VARIANTS = [('v1', 'fp_flopoco_add_single_v1.hpp', 'add_single<%d,%d>(X,Y)'),
            ('v2', 'fp_flopoco_add_single_v2.hpp', 'add_single<%d,%d>(X,Y)'),
            ('v3', 'fp_flopoco_add_single_v3.hpp', 'add_single<%d,%d>(X,Y)'),
            ('v4', 'fp_flopoco_add_single_v4.hpp', 'add_single<%d,%d>(X,Y)'),
            ('v5', 'fp_flopoco_add_single_v5.hpp', 'add_single_v5<%d,%d>(X,Y)')]


def groups(tier):
    gs = []
    for v, h, e in VARIANTS:
        if tier == 'quick':
            fs = [(18, 12), (4, 3), (4, 5), (4, 8), (4, 13), (5, 10), (5, 13), (6, 17), (8, 23), (9, 12), (11, 20), (12, 4)]
            fs += [(5, 29), (8, 32)] if v in ('v1', 'v2') else []
            fs += [(6, 29), (7, 27)] if v in ('v4', 'v5') else []
            fs += [(4, 11), (10, 26)] if v == 'v3' else []
        else:
            fs = [f for f in fpadd.formats(tier) if f != (15, 60)]
        for E, F in fs:
            if v == 'v3' and not 11 <= F <= 26:
                continue        # this version only instantiates where the normaliser is exactly 5 levels deep
            gs.append(fpadd.group('add_single_' + v, E, F, 'thls/tops/' + h, e % (E, F)))
        if v != 'v5':
            gs.append(fpadd.group('add_small_' + v, 6, 14, 'thls/tops/' + h, 'add_small<6,14>(X,Y)'))
    return gs
