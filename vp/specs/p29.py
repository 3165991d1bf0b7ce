"""Transcendental functions and estimates are applied lane by lane."""
import z3
from ..contract import *
from ..types import *
from .. import fp
from .common import *
from .p28 import rnd, MATH
from ..build import SLEEF
from .sleef import EXTERNS

ASSUME = ['sin, cos, exp, ln, pow, tanh of the platform math library are uninterpreted functions of the operand bit patterns; their accuracy is not decided here',
          'in the sleef* configurations, a SLEEF vector function applies the scalar function in its name to every lane (vp/specs/sleef.py)']


def cfgs(tier):
    return ['base', 'sse42', 'avx', 'avx2', 'fma', 'dbg'] + SLEEF if tier == 'quick' else ALLCFG + SLEEF


def fns(tier, cfg):
    out = []
    for t in FLOATS:
        w = t.bits
        A = [Out('o', t), In('a', t)]
        api = t.name + '::'
        pi = rnd(MATH['PI'], w)
        u = {'sin': lambda x, w=w: fp.fun1('sin', x, w), 'cos': lambda x, w=w: fp.fun1('cos', x, w), 'exp': lambda x, w=w: fp.fun1('exp', x, w), 'ln': lambda x, w=w: fp.fun1('log', x, w),
             'tanh': lambda x, w=w: fp.fun1('tanh', x, w),
             'sin_pi': lambda x, w=w, pi=pi: fp.fun1('sin', fp.fbin('fmul', x, pi, w), w), 'cos_pi': lambda x, w=w, pi=pi: fp.fun1('cos', fp.fbin('fmul', x, pi, w), w),
             'sqrte': lambda x, w=w: fp.fun1('sqrt', x, w), 'recpre': lambda x, w=w: fp.fbin('fdiv', fp.one(w), x, w),
             'rsqrte': lambda x, w=w: fp.fbin('fdiv', fp.one(w), fp.fun1('sqrt', x, w), w)}
        if cfg in SLEEF:
            # sin(pi x) either as sin of the product or as SLEEF's sinpi; SLEEF's own estimate of the root
            def either(f, g):
                return lambda x: (lambda r: z3.Or(r == fp.tobv(f(x), r.size()), r == fp.tobv(g(x), r.size())))
            u['sin_pi'] = either(u['sin_pi'], lambda x, w=w: fp.fun1('sinpi', x, w))
            u['cos_pi'] = either(u['cos_pi'], lambda x, w=w: fp.fun1('cospi', x, w))
            u['rsqrte'] = either(u['rsqrte'], lambda x, w=w: fp.fbin('fdiv', fp.one(w), fp.fun1('sqrt35', x, w), w))
            u['sqrte'] = either(u['sqrte'], lambda x, w=w: fp.fun1('sqrt35', x, w))
        for f, g in u.items():
            out.append(Fn('%s_%s' % (f, t), A, '*o = (*a).%s();' % f, lambda env, g=g: Spec({'o': [g(x) for x in env['a']]}), api=api + f, cmp={'o': 'ulp4'}))
        out.append(Fn('powf_%s' % t, A + [In('b', t)], '*o = (*a).powf(*b);', lambda env, w=w: Spec({'o': [fp.fun2('pow', x, y, w) for x, y in zip(env['a'], env['b'])]}), api=api + 'powf', cmp={'o': 'ulp4'}))
        out.append(Fn('sin_cos_pi_%s' % t, [Out('o', t), Out('p', t), In('a', t)], 'let (s, c) = (*a).sin_cos_pi(); *o = s; *p = c;',
                      lambda env, u=u: Spec({'o': [u['sin_pi'](x) for x in env['a']], 'p': [u['cos_pi'](x) for x in env['a']]}), api=api + 'sin_cos_pi', cmp={'o': 'ulp4', 'p': 'ulp4'}))
    return out
