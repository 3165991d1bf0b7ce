"""Numeric casts."""
import z3
from ..contract import *
from ..types import *
from .. import fp
from .common import *
from .p18 import conv

ASSUME = ['int-to-float, float-to-int and float-to-float conversions are uninterpreted functions of the exact source value',
          'float-to-integer casts are specified for values whose truncation is representable; NaN and out-of-range lanes are excluded by precondition (the documentation is silent, the intrinsic leaves them undefined)']


def cfgs(tier):
    return ['base', 'sse42', 'avx', 'avx2', 'dbg'] if tier == 'quick' else ALLCFG


def fns(tier, cfg):
    out = []
    for dn, sn in pairs('cast'):
        d, s = BY[dn], BY[sn]

        def sp(env, d=d, s=s):
            req = []
            if s.kind == 'f' and d.kind in 'iu':
                for x in env['a']:
                    req += [z3.Not(fp.is_nan(x, s.bits)), fp.in_range(fp.trunc_int(x, s.bits), d.bits, d.kind == 'i')]
            return Spec({'o': [conv(d, s, x) for x in env['a']]}, requires=req)
        out.append(Fn('cast_%s_%s' % (d, s), [Out('o', d), In('a', s)], '*o = (*a).cast();', sp, api='%s::cast -> %s' % (s, d)))
        if cfg == 'base':
            out.append(Fn('fcast_%s_%s' % (d, s), [Out('o', d), In('a', s)], '*o = %s::from_cast(*a);' % d, sp, api='%s::from_cast(%s)' % (d, s)))
    return out
