"""Shuffles with run-time indices."""
import z3
from ..contract import *
from ..types import *
from .common import *
from . import p25

ASSUME = ['indices are required to be smaller than the number of lanes (out-of-range indices differ between configurations)']


def cfgs(tier):
    return ['base', 'ssse3', 'sse42', 'avx', 'avx2', 'dbg'] if tier == 'quick' else ALLCFG


def fns(tier, cfg):
    out = []
    for t in ALL:
        u = uint_of(t)

        def sp(env, t=t, u=u):
            ix = env['i']
            n = t.n
            if n == 1:
                return Spec({'o': env['a']}, requires=[x == 0 for x in ix])
            lg = n.bit_length() - 1
            res = []
            for x in ix:
                lo = z3.Extract(lg - 1, 0, x)
                r = env['a'][0]
                for j in range(1, n):
                    r = z3.If(lo == j, env['a'][j], r)
                res.append(r)
            return Spec({'o': res}, requires=[z3.ULT(x, k(n, u.bits)) for x in ix] if n < (1 << u.bits) else [])
        out.append(Fn('shdyn_%s' % t, [Out('o', t), In('a', t), In('i', u)], '*o = (*a).shuffle1_dyn(*i);', sp, api='%s::shuffle1_dyn' % t))
    out += p25.subset(('shuffle1_dyn',))
    return out
