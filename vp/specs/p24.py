"""Bit counting."""
import z3
from ..contract import *
from ..types import *
from .common import *


def cfgs(tier):
    return ['base', 'sse42', 'avx', 'avx2', 'fma', 'dbg'] if tier == 'quick' else ALLCFG


def ones(x, b):
    # sum of the bits
    r = k(0, b)
    for i in range(b):
        r = r + z3.ZeroExt(b - 1, z3.Extract(i, i, x))
    return r


def lead(x, b):
    # b-1-i for the highest set bit i, b if there is none
    r = k(b, b)
    for i in range(b):
        r = z3.If(z3.Extract(i, i, x) == 1, k(b - 1 - i, b), r)
    return r


def trail(x, b):
    r = k(b, b)
    for i in reversed(range(b)):
        r = z3.If(z3.Extract(i, i, x) == 1, k(i, b), r)
    return r


def fns(tier, cfg):
    out = []
    for t in INTS:
        b = t.bits
        ar = [Out('o', t), In('a', t)]
        for nm, f in (('count_ones', lambda x, b: ones(x, b)), ('count_zeros', lambda x, b: ones(~x, b)), ('leading_zeros', lambda x, b: lead(x, b)), ('trailing_zeros', lambda x, b: trail(x, b))):
            out.append(Fn('%s_%s' % (nm, t), ar, '*o = (*a).%s();' % nm, lambda env, f=f, b=b: Spec({'o': [f(x, b) for x in env['a']]}), api='%s::%s' % (t, nm)))
    return out
