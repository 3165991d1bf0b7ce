"""The lexicographic order."""
import z3
from ..contract import *
from ..types import *
from .. import fp
from .common import *

PRELUDE = '''use core::cmp::{PartialEq, PartialOrd, Ord, Ordering};
#[inline(always)] fn enc(x: Ordering) -> i8 { match x { Ordering::Less => -1, Ordering::Equal => 0, Ordering::Greater => 1 } }
'''


def cfgs(tier):
    return ['base', 'sse42', 'avx', 'avx2', 'dbg'] if tier == 'quick' else ALLCFG + ['nosse']


def lex(t, a, b):
    l = z3.BoolVal(False)
    for x, y in reversed(list(zip(a, b))):
        l = z3.Or(lt(t, x, y), z3.And(x == y, l))
    return l


def fns(tier, cfg):
    out = []
    for t in INTS + MASKS:
        def rel(env, t=t):
            a, b = env['a'], env['b']
            return lex(t, a, b), z3.And(*[x == y for x, y in zip(a, b)]), lex(t, b, a)
        ar = [Out('o', scalar('bool')), In('a', t), In('b', t)]
        ac = [Out('o', scalar('i8')), In('a', t), In('b', t)]
        for nm, w in (('lex_ord', 'l'), ('partial_lex_ord', 'p')):
            L = '(*a).%s()' % nm
            R = '(*b).%s()' % nm
            for o, s, f in (('lt', '<', lambda l, e, g: l), ('le', '<=', lambda l, e, g: z3.Or(l, e)), ('gt', '>', lambda l, e, g: g), ('ge', '>=', lambda l, e, g: z3.Or(g, e))):
                if w == 'p' and o not in ('lt', 'ge'):
                    continue
                out.append(Fn('%s%s_%s' % (w, o, t), ar, '*o = %s %s %s;' % (L, s, R),
                              lambda env, rel=rel, f=f: Spec({'o': [bool_t(f(*rel(env)))]}), api='%s::%s %s' % (t, nm, s)))

        def cmp(env, rel=rel):
            l, e, g = rel(env)
            return Spec({'o': [z3.If(e, k(0, 8), z3.If(l, k(-1, 8), k(1, 8)))]})
        out.append(Fn('cmp_%s' % t, ac, '*o = enc((*a).lex_ord().cmp(&(*b).lex_ord()));', cmp, api='%s::lex_ord cmp' % t))
        out.append(Fn('pcmp_%s' % t, ac, '*o = match (*a).partial_lex_ord().partial_cmp(&(*b).partial_lex_ord()) { Some(x) => enc(x), None => 2 };', cmp, api='%s::partial_lex_ord partial_cmp' % t))
        if cfg == 'base':
            # the provided methods of Ord: which operand they return
            for o in ('max', 'min'):
                def mm(env, rel=rel, o=o):
                    l, e, g = rel(env)
                    x, y = (g, l) if o == 'max' else (l, g)
                    return Spec({'o': [z3.If(z3.Or(x, e), k(1, 8), k(0, 8)) | z3.If(z3.Or(y, e), k(2, 8), k(0, 8))]})
                out.append(Fn('%s_%s' % (o, t), [Out('o', scalar('u8')), In('a', t), In('b', t)], 'let r = Ord::%s((*a).lex_ord(), (*b).lex_ord()); *o = (r == (*a).lex_ord()) as u8 | ((r == (*b).lex_ord()) as u8) << 1;' % o, mm, api='%s::lex_ord %s' % (t, o)))
    return out


def lemmas(tier):
    """induction over the lanes: each step keeps trichotomy and transitivity"""
    ls = []
    for t in (scalar('i8'), scalar('u8'), scalar('m8'), scalar('i16'), scalar('u16'), scalar('i32'), scalar('u32'), scalar('i64'), scalar('u64'), scalar('i128'), scalar('u128'), scalar('m64')):
        a, b, c = z3.BitVecs('a b c', t.bits)
        v = [z3.Or(x == 0, x == k(-1, t.bits)) for x in (a, b, c)] if t.kind == 'm' else []
        Lab, Lba, Eab, Lbc, Lac, Ebc, Eac = z3.Bools('Lab Lba Eab Lbc Lac Ebc Eac')

        def st(x, y, tail):
            return z3.Or(lt(t, x, y), z3.And(x == y, tail))
        one = lambda p, q, r: z3.Or(z3.And(p, z3.Not(q), z3.Not(r)), z3.And(q, z3.Not(p), z3.Not(r)), z3.And(r, z3.Not(p), z3.Not(q)))
        ls.append(('%s: trichotomy is preserved by one more lane' % t, v + [one(Lab, Lba, Eab)],
                   one(st(a, b, Lab), st(b, a, Lba), z3.And(a == b, Eab))))
        ls.append(('%s: transitivity is preserved by one more lane' % t, v + [z3.Implies(z3.And(Lab, Lbc), Lac)],
                   z3.Implies(z3.And(st(a, b, Lab), st(b, c, Lbc)), st(a, c, Lac))))
    ls.append(('empty vectors: trichotomy base case', [], z3.BoolVal(True)))
    return ls
