"""P03: the default adder (add -> add_dual) on operands of one format"""
from . import fpadd

H = 'thls/tops/fp_flopoco_primitives.hpp'


def groups(tier):
    if tier == 'quick':
        fs = [(4 + (i * 5) % 9, F) for i, F in enumerate(range(3, 33))]
        fs += [(4, 5), (4, 13), (5, 13), (5, 29), (6, 29), (5, 10), (8, 7), (8, 23), (4, 3), (12, 3), (4, 32), (12, 32), (11, 52), (15, 60), (20, 20), (28, 6)]
        fs = sorted(set(fs))
    else:
        fs = fpadd.formats(tier) + [(5, 40), (6, 50), (8, 61), (7, 61), (6, 61), (16, 44)]
    gs = [fpadd.group('add', E, F, H, 'add<%d,%d>(X,Y)' % (E, F)) for E, F in fs]
    for g in gs:
        if g.weight > 40 * 40:
            g.shards = 4
    gs.append(fpadd.group('add_dual', 7, 19, H, 'add_dual<7,19>(X,Y)'))
    return gs
