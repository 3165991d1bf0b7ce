"""Mask reductions and bitmasks."""
import z3
from ..contract import *
from ..types import *
from .common import *


def cfgs(tier):
    return ['base', 'ssse3', 'sse42', 'avx', 'avx2', 'avx512', 'dbg', 'nosse'] if tier == 'quick' else ALLCFG + ['nosse']


def fns(tier, cfg):
    out = []
    bl = scalar('bool')
    for t in MASKS:
        for o, f in (('all', lambda xs: z3.And(*[x != 0 for x in xs])), ('any', lambda xs: z3.Or(*[x != 0 for x in xs])), ('none', lambda xs: z3.And(*[x == 0 for x in xs]))):
            out.append(Fn('%s_%s' % (o, t), [Out('o', bl), In('a', t)], '*o = (*a).%s();' % o,
                          lambda env, f=f: Spec({'o': [bool_t(f(env['a']))]}), api='%s::%s' % (t, o)))
    for t in INTS + MASKS:
        w = max(8, t.n)

        def sp(env, t=t, w=w):
            bits = [z3.Extract(t.bits - 1, t.bits - 1, x) for x in env['a']]
            v = bits[0] if len(bits) == 1 else z3.Concat(*reversed(bits))
            return Spec({'o': [z3.ZeroExt(w - t.n, v) if w > t.n else v]})
        out.append(Fn('bitmask_%s' % t, [Out('o', scalar('u%d' % w)), In('a', t)], '*o = (*a).bitmask();', sp, api='%s::bitmask' % t))
    return out
