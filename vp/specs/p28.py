"""Exactly specified float math: abs, sqrt, fused multiply-add, constants."""
import struct
import z3
from ..contract import *
from ..types import *
from .. import fp
from .common import *
from ..build import SLEEF
from .sleef import EXTERNS

ASSUME = ['sqrt, fma, multiplication and addition are uninterpreted functions of the operand bit patterns: the code must apply the IEEE operation named by the contract to exactly those operands',
          'in the sleef* configurations, SLEEF\'s fabs, sqrt and fma are the exact operations on every lane (vp/specs/sleef.py)']

CONSTS = {'MIN_POSITIVE': None, 'EPSILON': None, 'MIN': None, 'MAX': None, 'NAN': None, 'INFINITY': None, 'NEG_INFINITY': None}
# decimal expansions, rounded to nearest below
MATH = {'PI': '3.14159265358979323846264338327950288', 'FRAC_PI_2': '1.57079632679489661923132169163975144', 'FRAC_PI_3': '1.04719755119659774615421446109316763',
        'FRAC_PI_4': '0.785398163397448309615660845819875721', 'FRAC_PI_6': '0.52359877559829887307710723054658381', 'FRAC_PI_8': '0.39269908169872415480783042290993786',
        'FRAC_1_PI': '0.318309886183790671537767526745028724', 'FRAC_2_PI': '0.636619772367581343075535053490057448', 'FRAC_2_SQRT_PI': '1.12837916709551257389615890312154517',
        'SQRT_2': '1.41421356237309504880168872420969808', 'FRAC_1_SQRT_2': '0.707106781186547524400844362104849039', 'E': '2.71828182845904523536028747135266250',
        'LOG2_E': '1.44269504088896340735992468100189214', 'LOG10_E': '0.434294481903251827651128918916605082', 'LN_2': '0.693147180559945309417232121458176568',
        'LN_10': '2.30258509299404568401799145468436421'}


def rnd(dec, w):
    """nearest float to an exact decimal, ties to even, by rational arithmetic"""
    from fractions import Fraction
    x = Fraction(dec)
    man = fp.MAN[w]
    e = 0
    while x >= 2:
        x, e = x / 2, e + 1
    while x < 1:
        x, e = x * 2, e - 1
    m = x * (1 << man)
    f = m.numerator // m.denominator
    r = m - f
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and f & 1):
        f += 1
    if f == 2 << man:
        f, e = f // 2, e + 1
    bias = (1 << (fp.EXP[w] - 1)) - 1
    return ((e + bias) << man) | (f - (1 << man))


def limits(w):
    man, bias = fp.MAN[w], (1 << (fp.EXP[w] - 1)) - 1
    mx = fp.inf(w) - 1
    return {'EPSILON': (bias - man) << man, 'MIN': mx | fp.signbit(w), 'MIN_POSITIVE': 1 << man, 'MAX': mx, 'INFINITY': fp.inf(w), 'NEG_INFINITY': fp.inf(w) | fp.signbit(w)}


def cfgs(tier):
    return ['base', 'sse42', 'avx', 'avx2', 'fma', 'dbg'] + SLEEF if tier == 'quick' else ALLCFG + SLEEF


def fns(tier, cfg):
    out = []
    for t in FLOATS:
        w, n = t.bits, t.n
        A = [Out('o', t), In('a', t)]
        ABC = [Out('o', t), In('a', t), In('b', t), In('c', t)]
        api = t.name + '::'
        out.append(Fn('abs_%s' % t, A, '*o = (*a).abs();', lambda env, w=w: Spec({'o': [x & k(fp.absmask(w), w) for x in env['a']]}), api=api + 'abs'))
        out.append(Fn('sqrt_%s' % t, A, '*o = (*a).sqrt();', lambda env, w=w: Spec({'o': [fp.fun1('sqrt', x, w) for x in env['a']]}), api=api + 'sqrt'))
        out.append(Fn('mul_add_%s' % t, ABC, '*o = (*a).mul_add(*b, *c);',
                      lambda env, w=w: Spec({'o': [fp.fun3('fma', x, y, z, w) for x, y, z in zip(env['a'], env['b'], env['c'])]}), api=api + 'mul_add'))

        def e(env, w=w):
            def lane(x, y, z):
                f, u = fp.fun3('fma', x, y, z, w), fp.tobv(fp.fbin('fadd', fp.fbin('fmul', x, y, w), z, w), w)

                def ok(r):
                    # NaN results may differ in payload between the two admissible computations
                    return z3.Or(r == f, r == u, z3.And(fp.B(fp.is_nan(r, w)), z3.Or(fp.B(fp.is_nan(f, w)), fp.B(fp.is_nan(u, w)))))
                return ok
            return Spec({'o': [lane(x, y, z) for x, y, z in zip(env['a'], env['b'], env['c'])]})
        out.append(Fn('mul_adde_%s' % t, ABC, '*o = (*a).mul_adde(*b, *c);', e, api=api + 'mul_adde'))
        lim = limits(w)
        for c in list(lim) + list(MATH):
            v = lim[c] if c in lim else rnd(MATH[c], w)
            out.append(Fn('c_%s_%s' % (c, t), [Out('o', t)], '*o = %s::%s;' % (t, c), lambda env, v=v, n=n, w=w: Spec({'o': [k(v, w)] * n}), api=api + c))

        def nan(env, n=n, w=w):
            return Spec({'o': [lambda r: fp.B(fp.is_nan(r, w))] * n})
        out.append(Fn('c_NAN_%s' % t, [Out('o', t)], '*o = %s::NAN;' % t, nan, api=api + 'NAN'))
    return out
