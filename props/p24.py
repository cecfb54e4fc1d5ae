"""P24: classification and field access"""
from vc.core import Group, Job
from vc import spec as sp, terms as tm, ieee as ie
from .fpadd import fpin
from .p11 import preds, iein

PRE = '#include "thls/tops/fp_flopoco_primitives.hpp"\n#include "thls/tops/fp_promote.hpp"\n'


def fields(E, F):
    w = E + F + 3
    body = '''  fp_flopoco<%d,%d> X(vw::ld<%d>(x));
  vw::st<2>(fl,X.get_flags()); vw::st<1>(s,X.get_sign()); vw::st<%d>(e,X.get_exp_bits()); vw::st<%d>(f,X.get_frac_bits());
  vw::st<%d>(ef,X.get_exp_frac_bits()); vw::st<%d>(fef,X.get_flags_exp_frac_bits()); vw::st<3>(cls,X.get_equality_class());
  fp_flopoco<%d,%d> R(X.get_flags(),X.get_sign(),X.get_exp_bits(),X.get_frac_bits()); vw::st<%d>(r,R.bits);
  fp_flopoco<%d,%d> Z; vw::st<%d>(z,Z.bits);''' % (E, F, w, E, F, E + F, E + F + 2, E, F, w, E, F, w)

    def post(I, O):
        x = sp.unpack(I['x'], E, F)
        cls = tm.const(0, 3)
        for fl, s, c in ((2, 1, 1), (1, 1, 2), (0, 1, 3), (0, 0, 3), (1, 0, 4), (2, 0, 5)):
            cls = tm.ite(tm.and_(x.is_(fl), tm.eq(x.s, tm.const(s, 1))), tm.const(c, 3), cls)
        return [('get_flags', tm.eq(O['fl'], x.flags)), ('get_sign', tm.eq(O['s'], x.s)), ('get_exp_bits', tm.eq(O['e'], x.e)),
                ('get_frac_bits', tm.eq(O['f'], x.f)), ('get_exp_frac_bits', tm.eq(O['ef'], tm.cat(x.e, x.f))),
                ('get_flags_exp_frac_bits', tm.eq(O['fef'], tm.cat(x.flags, x.e, x.f))),
                ('get_equality_class names the kind and sign', tm.eq(O['cls'], cls)),
                ('rebuilding from the fields is the identity', tm.eq(O['r'], I['x'])),
                ('a default number is positive zero', tm.eq(O['z'], tm.const(0, w)))]
    return Job('fields_%d_%d' % (E, F), body, [fpin('x', E, F)], [('fl', 2), ('s', 1), ('e', E), ('f', F), ('ef', E + F), ('fef', E + F + 2), ('cls', 3), ('r', w), ('z', w)],
               post, desc='fields of fp_flopoco<%d,%d>' % (E, F))


def equals(E, F):
    w = E + F + 3
    body = '  fp_flopoco<%d,%d> X(vw::ld<%d>(x)), Y(vw::ld<%d>(y)); vw::st<1>(r,X.equals(Y));' % (E, F, w, w)

    def post(I, O):
        x, y = sp.unpack(I['x'], E, F), sp.unpack(I['y'], E, F)
        return [('equals holds exactly for the same number, signs of zero included', tm.eq(O['r'], sp.same(x, y)))]
    return Job('equals_%d_%d' % (E, F), body, [fpin('x', E, F), fpin('y', E, F)], [('r', 1)], post, desc='fp_flopoco<%d,%d>::equals' % (E, F))


def ifields(E, F):
    w = E + F + 1
    body = '''  fp_ieee<%d,%d> X(vw::ld<%d>(x)), Y(vw::ld<%d>(y));
  vw::st<1>(s,X.get_sign()); vw::st<%d>(e,X.get_exp_bits()); vw::st<%d>(f,X.get_frac_bits());
  fp_ieee<%d,%d> R(concat(X.get_sign(),X.get_exp_bits(),X.get_frac_bits())); vw::st<%d>(r,R.bits); vw::st<1>(q,X.equals(Y));''' % (E, F, w, w, E, F, E, F, w)

    def post(I, O):
        x, y = sp.IEEE(I['x'], E, F), sp.IEEE(I['y'], E, F)
        xz, yz = tm.or_(x.zero, x.sub), tm.or_(y.zero, y.sub)
        want = tm.orl(tm.and_(xz, yz), tm.and_(x.nan, y.nan), tm.andl(tm.not_(xz), tm.not_(x.nan), tm.eq(x.x, y.x)))
        return [('get_sign', tm.eq(O['s'], x.s)), ('get_exp_bits', tm.eq(O['e'], x.e)), ('get_frac_bits', tm.eq(O['f'], x.f)),
                ('rebuilding from the fields is the identity', tm.eq(O['r'], I['x'])),
                ('equals: both zero (subnormals included), both NaN, or the same encoding', tm.eq(O['q'], want))]
    return Job('ifields_%d_%d' % (E, F), body, [iein('x', E, F), iein('y', E, F)], [('s', 1), ('e', E), ('f', F), ('r', w), ('q', 1)], post, desc='fields and equals of fp_ieee<%d,%d>' % (E, F))


def ilimits(E, F):
    w = E + F + 1
    b = sp.bias(E)
    C = lambda s, e=0, f=0: ((s << E | e) << F) | f
    top, ones = (1 << E) - 1, (1 << F) - 1
    fixed = [('min', C(0, 1)), ('neg_min', C(1, 1)), ('max', C(0, top - 1, ones)), ('neg_max', C(1, top - 1, ones)), ('lowest', C(1, top - 1, ones)), ('infinity', C(0, top)),
             ('neg_infinity', C(1, top)), ('denorm_min', C(0, 1)), ('pos_zero', C(0)), ('neg_zero', C(1)), ('zero', C(0)), ('pos_one', C(0, b)), ('neg_one', C(1, b)), ('one', C(0, b)),
             ('round_error', C(0, b - 1))]
    if b > F:
        fixed.append(('epsilon', C(0, b - F)))
    body = '  typedef std::numeric_limits<fp_ieee<%d,%d> > L; (void)x;\n' % (E, F)
    body += ''.join('  vw::st<%d>(%s_,L::%s().bits);\n' % (w, n, n) for n, _ in fixed + [('quiet_NaN', 0), ('signalling_NaN', 0)])
    body += '  k[0]=L::digits; k[1]=L::radix; k[2]=uint32_t(L::min_exponent); k[3]=uint32_t(L::max_exponent); k[4]=L::bias; fp_ieee<%d,%d> Z; vw::st<%d>(z,Z.bits);' % (E, F, w)

    def post(I, O):
        ps = [(n + ' is exactly that of the format', tm.eq(O[n + '_'], tm.const(v, w))) for n, v in fixed]
        ps += [(n + ' is a NaN', sp.IEEE(O[n + '_'], E, F).nan) for n in ('quiet_NaN', 'signalling_NaN')]
        for i, v in enumerate([F + 1, 2, (1 - b) % 2**32, b, b]):
            ps.append(('constant %d describes the format' % i, tm.eq(tm.ext(O['k'], 64 * i + 63, 64 * i), tm.const(v, 64))))
        ps.append(('a default number is positive zero', tm.eq(O['z'], tm.const(0, w))))
        return ps
    return Job('ilimits_%d_%d' % (E, F), body, [('x', 1)], [(n + '_', w) for n, _ in fixed + [('quiet_NaN', 0), ('signalling_NaN', 0)]] + [('k', 320), ('z', w)], post,
               desc='numeric_limits<fp_ieee<%d,%d> >' % (E, F))


def groups(tier):
    gs = []
    fm = [(E, F) for F in range(2, 33) for E in ([3 + (F * 5) % 9] if tier == 'quick' else range(3, 13))] + [(8, 23), (11, 52), (15, 60), (20, 20), (28, 6), (5, 10), (2, 2), (3, 2), (8, 7), (4, 3)]
    fm = sorted(set(fm))
    for i in range(0, len(fm), 5):
        js = []
        for E, F in fm[i:i + 5]:
            js += [fields(E, F), equals(E, F), ifields(E, F), ilimits(E, F), preds('fp_flopoco', E, F), preds('fp_ieee', E, F)]
        gs.append(Group('fields_%d' % i, PRE, js, weight=30))
    return gs
