"""Lossless conversions between vectors with the same number of lanes."""
import z3
from ..contract import *
from ..types import *
from .. import fp
from .common import *

ASSUME = ['int-to-float and f32-to-f64 conversions are uninterpreted functions of the exact source value']


def cfgs(tier):
    return ['base', 'sse42', 'avx', 'avx2', 'dbg'] if tier == 'quick' else ALLCFG


def conv(d, s, x):
    """numeric conversion of one lane"""
    if d.kind == 'm':
        if s.kind == 'f':
            return mask_t(z3.Not(fp.B(fp.is_zero(x, s.bits))), d.bits)
        return mask_t(x != 0, d.bits)
    if s.kind == 'f':
        if d.kind == 'f':
            return x if s.bits == d.bits else fp.fpext(x, s.bits, d.bits)
        return z3.Extract(d.bits - 1, 0, fp.trunc_int(x, s.bits))
    sg = s.kind in 'im'
    if d.kind == 'f':
        return fp.itofp(x, s.bits, sg, d.bits)
    if d.bits <= s.bits:
        return x if d.bits == s.bits else z3.Extract(d.bits - 1, 0, x)
    return z3.SignExt(d.bits - s.bits, x) if sg else z3.ZeroExt(d.bits - s.bits, x)


def fns(tier, cfg):
    out = []
    for dn, sn in pairs('from'):
        d, s = BY[dn], BY[sn]
        out.append(Fn('from_%s_%s' % (d, s), [Out('o', d), In('a', s)], '*o = %s::from(*a);' % d,
                      lambda env, d=d, s=s: Spec({'o': [conv(d, s, x) for x in env['a']]}), api='%s::from(%s)' % (d, s)))
    return out


def lemmas(tier):
    ls = []
    for dn, sn in pairs('from'):
        d, s = BY[dn], BY[sn]
        x, y = z3.BitVecs('x y', s.bits)
        v = [z3.Or(q == 0, q == k(-1, s.bits)) for q in (x, y)] if s.kind == 'm' else []
        if d.kind != 'f' and s.kind != 'f':
            nm = '%s -> %s is injective' % (s.elem, d.elem)
            if nm not in [l[0] for l in ls]:
                ls.append((nm, v + [conv(d, s, x) == conv(d, s, y)], x == y))
    return ls
