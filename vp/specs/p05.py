"""Shifts and rotates."""
import z3
from ..contract import *
from ..types import *
from ..intrin import rotl as rol
from .common import *


def cfgs(tier):
    return ['base', 'sse42', 'avx', 'avx2', 'dbg'] if tier == 'quick' else ALLCFG


def fns(tier, cfg):
    out = []
    u32 = scalar('u32')
    for t in INTS:
        n, b = t.n, t.bits

        def sh(o, x, y, t=t):
            if o == 'shl':
                return x << y
            return x >> y if t.kind == 'i' else z3.LShR(x, y)

        def amt(v, b=b):
            return z3.Extract(b - 1, 0, v) if b < 32 else (z3.ZeroExt(b - 32, v) if b > 32 else v)
        for o, s in (('shl', '<<'), ('shr', '>>')):
            def mk(a, y, o=o, b=b, sh=sh):
                return Spec({'o': [sh(o, p, q) for p, q in zip(a, y)]}, requires=[z3.ULT(q, k(b, b)) for q in y])

            def mks(a, y, o=o, b=b, n=n, sh=sh, amt=amt):
                return Spec({'o': [sh(o, p, amt(y)) for p in a]}, requires=[z3.ULT(y, k(b, 32))])
            api = '%s::%s' % (t, o)
            out.append(Fn('%s_%s' % (o, t), [Out('o', t), In('a', t), In('b', t)], '*o = *a %s *b;' % s,
                          lambda env, mk=mk: mk(env['a'], env['b']), api=api))
            out.append(Fn('%s_as_%s' % (o, t), [InOut('o', t), In('b', t)], '*o %s= *b;' % s,
                          lambda env, mk=mk: mk(env['o'], env['b']), api=api + '_assign'))
            out.append(Fn('%s_vs_%s' % (o, t), [Out('o', t), In('a', t), In('b', u32)], '*o = *a %s *b;' % s,
                          lambda env, mks=mks: mks(env['a'], env.s('b')), api=api + '(u32)'))
            out.append(Fn('%s_asv_%s' % (o, t), [InOut('o', t), In('b', u32)], '*o %s= *b;' % s,
                          lambda env, mks=mks: mks(env['o'], env.s('b')), api=api + '_assign(u32)'))
        out.append(Fn('rotl_%s' % t, [Out('o', t), In('a', t), In('b', t)], '*o = (*a).rotate_left(*b);',
                      lambda env, b=b: Spec({'o': [rol(x, y, b) for x, y in zip(env['a'], env['b'])]}), api=t.name + '::rotate_left'))
        out.append(Fn('rotr_%s' % t, [Out('o', t), In('a', t), In('b', t)], '*o = (*a).rotate_right(*b);',
                      lambda env, b=b: Spec({'o': [rol(x, -y, b) for x, y in zip(env['a'], env['b'])]}), api=t.name + '::rotate_right'))
    return out
