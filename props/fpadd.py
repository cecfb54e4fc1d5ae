from vc.core import Group, Job, Case
from vc import spec as sp, terms as tm


def fpin(n, E, F):
    return (n, E + F + 3, [(n + 'k', 2), (n + 's', 1), (n + 'e', E), (n + 'f', F)])


def formats(tier):
    return [(E, F) for F in range(3, 33) for E in range(4, 13)] + [(8, 23), (11, 52), (15, 60)]


def job(name, E, F, expr, EX=None, FX=None, EY=None, FY=None):
    EX, FX, EY, FY = EX or E, FX or F, EY or E, FY or F
    body = '''  fp_flopoco<%d,%d> X(vw::ld<%d>(x)); fp_flopoco<%d,%d> Y(vw::ld<%d>(y));
  vw::st<%d>(r, (%s).bits);''' % (EX, FX, EX + FX + 3, EY, FY, EY + FY + 3, E + F + 3, expr)
    W = max(FX, FY)

    def cases(I):
        x, y = sp.unpack(I['x'], EX, FX), sp.unpack(I['y'], EY, FY)
        d = sp.add_exact_order(x, y, E, F)[3]
        nn = tm.and_(x.is_(1), y.is_(1))
        cs = [Case('special operands', tm.not_(nn), mk(None))]
        for k in range(W + 4):
            h = tm.eq(d, tm.const(k, d.w))
            if k >= 1 << max(EX, EY):
                continue
            cs.append(Case('exponent distance %d' % k, tm.and_(nn, h), mk(k)))
        cs.append(Case('exponent distance above %d' % (W + 3), tm.and_(nn, tm.ult(tm.const(W + 3, d.w), d)), mk('far')))
        return cs

    def mk(k):
        def post(I, O):
            x, y = sp.unpack(I['x'], EX, FX), sp.unpack(I['y'], EY, FY)
            return [('the result is the exact sum rounded to nearest even',
                     sp.same(sp.unpack(O['r'], E, F), sp.add_spec(x, y, E, F, k)))]
        return post
    return Job(name, body, [fpin('x', EX, FX), fpin('y', EY, FY)], [('r', E + F + 3)], mk(None), cases=cases,
               desc='%s on fp_flopoco<%d,%d>, fp_flopoco<%d,%d>' % (name, EX, FX, EY, FY))


def group(name, E, F, header, expr):
    return Group('%s_%d_%d' % (name, E, F), '#include "%s"' % header, [job(name, E, F, expr)], weight=F * F)
