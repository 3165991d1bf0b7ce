"""Vertical comparisons yield exact, well-formed masks."""
import z3
from ..contract import *
from ..types import *
from .. import fp
from .common import *
from . import p25


def cfgs(tier):
    return ['base', 'sse42', 'avx', 'avx2', 'dbg'] if tier == 'quick' else ALLCFG


def rel(t, o, a, b):
    e, l, g = eq(t, a, b), lt(t, a, b), lt(t, b, a)
    e, l, g = fp.B(e), fp.B(l), fp.B(g)
    return {'eq': e, 'ne': z3.Not(e), 'lt': l, 'le': z3.Or(l, e), 'gt': g, 'ge': z3.Or(g, e)}[o]


def fns(tier, cfg):
    out = []
    for t in ALL:
        mt = mask_of(t)
        for o in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
            def sp(env, t=t, o=o, b=mt.bits):
                return Spec({'o': [mask_t(rel(t, o, x, y), b) for x, y in zip(env['a'], env['b'])]})
            out.append(Fn('%s_%s' % (o, t), [Out('o', mt), In('a', t), In('b', t)], '*o = (*a).%s(*b);' % o, sp, api='%s::%s' % (t, o)))
        if t.kind == 'f':
            for o in ('is_nan', 'is_infinite', 'is_finite'):
                def sp(env, o=o, w=t.bits, b=mt.bits):
                    f = {'is_nan': lambda x: fp.is_nan(x, w), 'is_infinite': lambda x: fp.is_inf(x, w),
                         'is_finite': lambda x: z3.Not(z3.Or(fp.is_nan(x, w), fp.is_inf(x, w)))}[o]
                    return Spec({'o': [mask_t(f(x), b) for x in env['a']]})
                out.append(Fn('%s_%s' % (o, t), [Out('o', mt), In('a', t)], '*o = (*a).%s();' % o, sp, api='%s::%s' % (t, o)))
    out += p25.subset(('eq', 'ne', 'lt', 'le', 'gt', 'ge'))
    return out


def lemmas(tier):
    ls = []
    for t in (scalar('i8'), scalar('u8'), scalar('i32'), scalar('u32'), scalar('i64'), scalar('u64'), scalar('f32'), scalar('f64'), scalar('i128'), scalar('u128')):
        a, b, c = z3.BitVecs('a b c', t.bits)
        ls.append(('%s: ne is the negation of eq' % t, [], rel(t, 'ne', a, b) == z3.Not(rel(t, 'eq', a, b))))
        ls.append(('%s: a<b iff b>a' % t, [], rel(t, 'lt', a, b) == rel(t, 'gt', b, a)))
        if t.kind != 'f':
            ls.append(('%s: le is the negation of gt' % t, [], rel(t, 'le', a, b) == z3.Not(rel(t, 'gt', a, b))))
        else:
            un = z3.Or(fp.is_nan(a, t.bits), fp.is_nan(b, t.bits))
            ls.append(('%s: comparisons with NaN are false except ne' % t, [un], z3.And(*[z3.Not(rel(t, o, a, b)) for o in ('eq', 'lt', 'le', 'gt', 'ge')], rel(t, 'ne', a, b))))
    return ls
