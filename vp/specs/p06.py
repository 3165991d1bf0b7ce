"""Vertical min and max."""
import z3
from ..contract import *
from ..types import *
from .. import fp
from .common import *


def cfgs(tier):
    return ['base', 'ssse3', 'sse42', 'avx', 'avx2', 'dbg'] if tier == 'quick' else ALLCFG


def fmm(o, a, b, w):
    """the smaller / larger operand; the other one if exactly one is NaN; some NaN if both
    are; either operand if they compare equal"""
    def ok(r):
        lt = fp.B(fp.olt(a, b, w)) if o == 'min' else fp.B(fp.olt(b, a, w))
        gt = fp.B(fp.olt(b, a, w)) if o == 'min' else fp.B(fp.olt(a, b, w))
        na, nb = fp.B(fp.is_nan(a, w)), fp.B(fp.is_nan(b, w))
        return z3.If(z3.And(na, nb), fp.B(fp.is_nan(r, w)),
                     z3.If(na, r == b, z3.If(nb, r == a, z3.If(lt, r == a, z3.If(gt, r == b, z3.Or(r == a, r == b))))))
    return ok


def fns(tier, cfg):
    out = []
    for t in INTS:
        for o in ('min', 'max'):
            def sp(env, t=t, o=o):
                return Spec({'o': [z3.If(lt(t, x, y), x, y) if o == 'min' else z3.If(lt(t, x, y), y, x) for x, y in zip(env['a'], env['b'])]})
            out.append(Fn('%s_%s' % (o, t), [Out('o', t), In('a', t), In('b', t)], '*o = (*a).%s(*b);' % o, sp, api='%s::%s' % (t, o)))
    for t in FLOATS:
        for o in ('min', 'max'):
            def sp(env, t=t, o=o):
                return Spec({'o': [fmm(o, x, y, t.bits) for x, y in zip(env['a'], env['b'])]})
            out.append(Fn('%s_%s' % (o, t), [Out('o', t), In('a', t), In('b', t)], '*o = (*a).%s(*b);' % o, sp, api='%s::%s' % (t, o)))
    return out
