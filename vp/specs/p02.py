"""Integer arithmetic is lane-wise and wraps."""
import z3
from ..contract import *
from ..types import *
from .common import *

OPS = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'rem': '%'}


def cfgs(tier):
    return ['base', 'sse42', 'avx', 'avx2', 'dbg'] if tier == 'quick' else ALLCFG


def op(t, o, a, b):
    if o == 'add':
        return a + b
    if o == 'sub':
        return a - b
    if o == 'mul':
        return a * b
    if o == 'div':
        return a / b if t.kind == 'i' else z3.UDiv(a, b)
    return z3.SRem(a, b) if t.kind == 'i' else z3.URem(a, b)


def pre(t, o, a, b):
    if o not in ('div', 'rem'):
        return []
    r = [y != 0 for y in b]
    if t.kind == 'i':
        r += [z3.Not(z3.And(x == k(1 << (t.bits - 1), t.bits), y == k(-1, t.bits))) for x, y in zip(a, b)]
    return r


def fns(tier, cfg):
    out = []
    for t in INTS:
        e = elem(t)
        n = t.n
        for o, s in OPS.items():
            def vv(env, t=t, o=o):
                a, b = env['a'], env['b']
                return Spec({'o': [op(t, o, x, y) for x, y in zip(a, b)]}, pre(t, o, a, b))

            def vs(env, t=t, o=o):
                a, b = env['a'], env['b'] * t.n
                return Spec({'o': [op(t, o, x, y) for x, y in zip(a, b)]}, pre(t, o, a, b))

            def sv(env, t=t, o=o):
                a, b = env['a'] * t.n, env['b']
                return Spec({'o': [op(t, o, x, y) for x, y in zip(a, b)]}, pre(t, o, a, b))

            def va(env, t=t, o=o):
                a, b = env['o'], env['b']
                return Spec({'o': [op(t, o, x, y) for x, y in zip(a, b)]}, pre(t, o, a, b))

            def vsa(env, t=t, o=o):
                a, b = env['o'], env['b'] * t.n
                return Spec({'o': [op(t, o, x, y) for x, y in zip(a, b)]}, pre(t, o, a, b))
            api = '%s::%s' % (t.name, o)
            out.append(Fn('%s_%s' % (o, t), [Out('o', t), In('a', t), In('b', t)], '*o = *a %s *b;' % s, vv, api=api))
            out.append(Fn('%s_vs_%s' % (o, t), [Out('o', t), In('a', t), In('b', e)], '*o = *a %s *b;' % s, vs, api=api + '(scalar)'))
            out.append(Fn('%s_sv_%s' % (o, t), [Out('o', t), In('a', e), In('b', t)], '*o = *a %s *b;' % s, sv, api=api + '(scalar lhs)'))
            out.append(Fn('%s_as_%s' % (o, t), [InOut('o', t), In('b', t)], '*o %s= *b;' % s, va, api=api + '_assign'))
            out.append(Fn('%s_asv_%s' % (o, t), [InOut('o', t), In('b', e)], '*o %s= *b;' % s, vsa, api=api + '_assign(scalar)'))
        if t.kind == 'i':
            out.append(Fn('neg_%s' % t, [Out('o', t), In('a', t)], '*o = -*a;', lambda env: Spec({'o': [-x for x in env['a']]}), api='%s::neg' % t))
    return out
