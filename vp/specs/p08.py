"""Floating-point sums and products."""
import functools
import z3
from ..contract import *
from ..types import *
from .. import fp
from .common import *

ASSUME = ['IEEE addition and multiplication are uninterpreted functions of the operand bit patterns (each lane must enter exactly once, in the stated order)']


def cfgs(tier):
    return ['base', 'sse42', 'avx', 'avx2', 'fma', 'dbg'] if tier == 'quick' else ALLCFG


def fns(tier, cfg):
    out = []
    for t in FLOATS:
        e, w = elem(t), t.bits

        def sp(env, w=w, op='fadd', z=0):
            # starting from the neutral element or from lane 0 (they differ in the sign of a zero sum only)
            c0, c1 = z, env['a'][0]
            for i, x in enumerate(env['a']):
                c0 = fp.fbin(op, c0, x, w)
                if i:
                    c1 = fp.fbin(op, c1, x, w)
            c0, c1 = fp.tobv(c0, w), fp.tobv(c1, w)

            def ok(r):
                return [('all lanes, once each, in order', z3.Or(r == c0, r == c1, z3.And(fp.B(fp.is_nan(r, w)), fp.B(fp.is_nan(c0, w)))))]
            return Spec({'o': [ok]})
        out.append(Fn('sum_%s' % t, [Out('o', e), In('a', t)], '*o = (*a).sum();', sp, api=t.name + '::sum'))
        out.append(Fn('product_%s' % t, [Out('o', e), In('a', t)], '*o = (*a).product();',
                      lambda env, sp=sp, w=w: sp(env, op='fmul', z=fp.one(w)), api=t.name + '::product'))
    return out
