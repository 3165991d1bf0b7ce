"""Floating-point arithmetic is the IEEE operation on each lane."""
import z3
from ..contract import *
from ..types import *
from .. import fp
from .common import *

OPS = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'rem': '%'}
ASSUME = ['IEEE + - * / and fmod are uninterpreted functions of the operand bit patterns: the obligation is that each lane applies exactly that one operation to exactly those operands']


def cfgs(tier):
    return ['base', 'sse42', 'avx', 'avx2', 'fma', 'dbg'] if tier == 'quick' else ALLCFG


def fns(tier, cfg):
    out = []
    for t in FLOATS:
        e, n, w = elem(t), t.n, t.bits
        for o, s in OPS.items():
            def mk(a, b, o=o, w=w):
                return Spec({'o': [fp.fbin('f' + o, x, y, w) for x, y in zip(a, b)]})
            api = '%s::%s' % (t, o)
            out.append(Fn('%s_%s' % (o, t), [Out('o', t), In('a', t), In('b', t)], '*o = *a %s *b;' % s,
                          lambda env, mk=mk: mk(env['a'], env['b']), api=api))
            out.append(Fn('%s_vs_%s' % (o, t), [Out('o', t), In('a', t), In('b', e)], '*o = *a %s *b;' % s,
                          lambda env, mk=mk, n=n: mk(env['a'], env['b'] * n), api=api + '(scalar)'))
            out.append(Fn('%s_sv_%s' % (o, t), [Out('o', t), In('a', e), In('b', t)], '*o = *a %s *b;' % s,
                          lambda env, mk=mk, n=n: mk(env['a'] * n, env['b']), api=api + '(scalar lhs)'))
            out.append(Fn('%s_as_%s' % (o, t), [InOut('o', t), In('b', t)], '*o %s= *b;' % s,
                          lambda env, mk=mk: mk(env['o'], env['b']), api=api + '_assign'))
            out.append(Fn('%s_asv_%s' % (o, t), [InOut('o', t), In('b', e)], '*o %s= *b;' % s,
                          lambda env, mk=mk, n=n: mk(env['o'], env['b'] * n), api=api + '_assign(scalar)'))
        out.append(Fn('neg_%s' % t, [Out('o', t), In('a', t)], '*o = -*a;',
                      lambda env, w=w: Spec({'o': [fp.fneg(x, w) for x in env['a']]}), api='%s::neg' % t))
    return out
