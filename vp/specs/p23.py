"""Byte order."""
import z3
from ..contract import *
from ..types import *
from .common import *


def cfgs(tier):
    return ['base', 'ssse3', 'sse42', 'avx', 'avx2', 'dbg'] if tier == 'quick' else ALLCFG


def fns(tier, cfg):
    out = []
    for t in INTS:
        rev = lambda env, t=t: Spec({'o': from_bytes(list(reversed(to_bytes(env['a'], t.bits))), t.bits)})
        same = lambda env: Spec({'o': env['a']})
        ar = [Out('o', t), In('a', t)]
        api = t.name + '::'
        out.append(Fn('swap_%s' % t, ar, '*o = (*a).swap_bytes();', rev, api=api + 'swap_bytes'))
        out.append(Fn('tole_%s' % t, ar, '*o = (*a).to_le();', same, api=api + 'to_le'))
        out.append(Fn('tobe_%s' % t, ar, '*o = (*a).to_be();', rev, api=api + 'to_be'))
        out.append(Fn('fromle_%s' % t, ar, '*o = %s::from_le(*a);' % t, same, api=api + 'from_le'))
        out.append(Fn('frombe_%s' % t, ar, '*o = %s::from_be(*a);' % t, rev, api=api + 'from_be'))
    return out


def lemmas(tier):
    x = [z3.BitVec('x%d' % i, 32) for i in range(4)]
    r = lambda v: from_bytes(list(reversed(to_bytes(v, 32))), 32)
    return [('reversing the bytes twice is the identity', [], z3.And(*[a == b for a, b in zip(r(r(x)), x)]))]
