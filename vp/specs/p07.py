"""Integer, bitwise and min/max reductions."""
import functools
import operator
import z3
from ..contract import *
from ..types import *
from .. import fp
from ..intrin import mm
from .common import *



def cfgs(tier):
    return ['base', 'sse42', 'avx', 'avx2', 'dbg'] if tier == 'quick' else ALLCFG


def red(f, xs):
    return functools.reduce(f, xs)


def extremum(t, o, xs):
    """the result is one of the lanes and no lane is beyond it"""
    def ok(r):
        bound = [z3.Not(lt(t, x, r)) if o == 'min' else z3.Not(lt(t, r, x)) for x in xs]
        return [('is one of the lanes', z3.Or(*[r == x for x in xs]))] + [('not beyond lane %d' % i, b) for i, b in enumerate(bound)]
    f = mm(('s' if t.kind == 'i' else 'u') + o)
    acc = xs[0]
    for x in xs[1:]:
        acc = f(t.bits, acc, x)
    ok.cand = acc
    return ok


def fextremum(w, o, xs):
    def ok(r):
        nan = [fp.B(fp.is_nan(x, w)) for x in xs]
        rn = fp.B(fp.is_nan(r, w))
        alln = z3.And(*nan)
        g = [('NaN only if all lanes are', rn == alln), ('is one of the lanes', z3.Or(alln, *[r == x for x in xs]))]
        for i, (x, nx) in enumerate(zip(xs, nan)):
            g.append(('not beyond lane %d' % i, z3.Or(nx, z3.Not(fp.B(fp.olt(x, r, w) if o == 'min' else fp.olt(r, x, w))))))
        return g
    acc = xs[0]
    for x in xs[1:]:
        acc = fp.minmax(o + 'num', acc, x, w)
    ok.cand = acc
    return ok


def lemmas(tier):
    """induction over the lanes: folding min/max keeps 'is a lane and is not beyond any lane'"""
    ls = []
    for e in ('i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'i128', 'u128'):
        t = scalar(e)
        for o in ('min', 'max'):
            a, x, y = z3.BitVecs('acc x y', t.bits)
            member = z3.Bool('acc_is_a_lane')
            r = mm(('s' if t.kind == 'i' else 'u') + o)(t.bits, a, x)
            bd = lambda r, y: z3.Not(lt(t, y, r)) if o == 'min' else z3.Not(lt(t, r, y))
            ls.append(('%s %s: one more lane keeps the bound' % (e, o), [bd(a, y)], z3.And(bd(r, y), bd(r, x))))
            ls.append(('%s %s: one more lane keeps membership' % (e, o), [], z3.Or(r == a, r == x)))
    for w in (32, 64):
        for o in ('min', 'max'):
            a, x, y = z3.BitVecs('acc x y', w)
            r = fp.minmax(o + 'num', a, x, w)
            N = lambda z: fp.B(fp.is_nan(z, w))
            bd = lambda r, y: z3.Or(N(y), z3.Not(fp.B(fp.olt(y, r, w) if o == 'min' else fp.olt(r, y, w))))
            ls.append(('f%d %s: NaN only if all are' % (w, o), [], N(r) == z3.And(N(a), N(x))))
            ls.append(('f%d %s: one more lane keeps membership' % (w, o), [z3.Not(z3.And(N(a), N(x)))], z3.Or(z3.And(r == a, z3.Not(N(a))), r == x)))
            ls.append(('f%d %s: one more lane keeps the bound' % (w, o), [z3.Or(N(a), bd(a, y)), z3.Implies(N(a), N(y))], z3.And(bd(r, y), bd(r, x))))
    return ls


def fns(tier, cfg):
    out = []
    for t in INTS:
        e = elem(t)
        api = t.name + '::'
        out.append(Fn('wsum_%s' % t, [Out('o', e), In('a', t)], '*o = (*a).wrapping_sum();',
                      lambda env: Spec({'o': [red(operator.add, env['a'])]}), api=api + 'wrapping_sum'))
        out.append(Fn('wprod_%s' % t, [Out('o', e), In('a', t)], '*o = (*a).wrapping_product();',
                      lambda env: Spec({'o': [red(operator.mul, env['a'])]}), api=api + 'wrapping_product'))
        for o in ('min', 'max'):
            out.append(Fn('%sel_%s' % (o, t), [Out('o', e), In('a', t)], '*o = (*a).%s_element();' % o,
                          lambda env, t=t, o=o: Spec({'o': [extremum(t, o, env['a'])]}), api=api + o + '_element'))
        for o, f in (('and', operator.and_), ('or', operator.or_), ('xor', operator.xor)):
            out.append(Fn('r%s_%s' % (o, t), [Out('o', e), In('a', t)], '*o = (*a).%s();' % o,
                          lambda env, f=f: Spec({'o': [red(f, env['a'])]}), api=api + o))
    for t in FLOATS:
        e = elem(t)
        for o in ('min', 'max'):
            out.append(Fn('%sel_%s' % (o, t), [Out('o', e), In('a', t)], '*o = (*a).%s_element();' % o,
                          lambda env, t=t, o=o: Spec({'o': [fextremum(t.bits, o, env['a'])]}), api=t.name + '::' + o + '_element'))
    for t in MASKS:
        for o, f in (('and', operator.and_), ('or', operator.or_), ('xor', operator.xor)):
            out.append(Fn('r%s_%s' % (o, t), [Out('o', scalar('bool')), In('a', t)], '*o = (*a).%s();' % o,
                          lambda env, f=f: Spec({'o': [bool_t(red(f, env['a']) != 0)]}), api=t.name + '::' + o))
    return out
