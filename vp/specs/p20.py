"""Bit-preserving reinterpretation."""
import z3
from ..contract import *
from ..types import *
from .common import *

PRELUDE = 'use core::arch::x86_64::*;\n'


def cfgs(tier):
    return ['base', 'sse42', 'avx', 'avx2', 'dbg'] if tier == 'quick' else ALLCFG


def ty(n):
    if n in BY:
        return BY[n]
    size = int(''.join(c for c in n if c.isdigit())) // 8
    return VT('u', 64, size // 8, n, n, align=size)


def fns(tier, cfg):
    out = []
    for dn, sn in pairs('bits'):
        d, s = ty(dn), ty(sn)
        arch = '__' in dn + sn

        def sp(env, d=d, s=s):
            return Spec({'o': rebits(env['a'], s.bits, d.bits)})
        out.append(Fn('into_%s_%s' % (d, s), [Out('o', d), In('a', s)], '*o = (*a).into_bits();', sp, api='%s::into_bits -> %s' % (s, d)))
        out.append(Fn('from_%s_%s' % (d, s), [Out('o', d), In('a', s)], '*o = <%s as FromBits<%s>>::from_bits(*a);' % (d, s), sp, api='%s::from_bits(%s)' % (d, s)))
    return out
