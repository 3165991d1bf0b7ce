"""Bitwise operators on integer and mask vectors."""
import z3
from ..contract import *
from ..types import *
from .common import *

OPS = {'and': '&', 'or': '|', 'xor': '^'}


def cfgs(tier):
    return ['base', 'sse42', 'avx', 'avx2', 'dbg'] if tier == 'quick' else ALLCFG


def op(o, a, b):
    return a & b if o == 'and' else a | b if o == 'or' else a ^ b


def fns(tier, cfg):
    out = []
    for t in INTS + MASKS:
        n, b = t.n, t.bits
        m = t.kind == 'm'
        e = scalar('bool') if m else elem(t)

        def sp(env, nm, n=n, m=m, b=b):
            x = env.s(nm)
            return [mask_t(x != 0, b) if m else x] * n
        for o, s in OPS.items():
            def mk(a, b, o=o):
                return Spec({'o': [op(o, x, y) for x, y in zip(a, b)]})
            api = '%s::bit%s' % (t, o)
            out.append(Fn('%s_%s' % (o, t), [Out('o', t), In('a', t), In('b', t)], '*o = *a %s *b;' % s,
                          lambda env, mk=mk: mk(env['a'], env['b']), api=api))
            out.append(Fn('%s_vs_%s' % (o, t), [Out('o', t), In('a', t), In('b', e)], '*o = *a %s *b;' % s,
                          lambda env, mk=mk, sp=sp: mk(env['a'], sp(env, 'b')), api=api + '(scalar)'))
            out.append(Fn('%s_sv_%s' % (o, t), [Out('o', t), In('a', e), In('b', t)], '*o = *a %s *b;' % s,
                          lambda env, mk=mk, sp=sp: mk(sp(env, 'a'), env['b']), api=api + '(scalar lhs)'))
            out.append(Fn('%s_as_%s' % (o, t), [InOut('o', t), In('b', t)], '*o %s= *b;' % s,
                          lambda env, mk=mk: mk(env['o'], env['b']), api=api + '_assign'))
            out.append(Fn('%s_asv_%s' % (o, t), [InOut('o', t), In('b', e)], '*o %s= *b;' % s,
                          lambda env, mk=mk, sp=sp: mk(env['o'], sp(env, 'b')), api=api + '_assign(scalar)'))
        out.append(Fn('not_%s' % t, [Out('o', t), In('a', t)], '*o = !*a;',
                      lambda env: Spec({'o': [~x for x in env['a']]}), api='%s::not' % t))
    return out


def lemmas(tier):
    ls = []
    for b in (8, 16, 32, 64, 128):
        x, y = z3.BitVecs('x y', b)
        v = lambda z: z3.Or(z == 0, z == k(-1, b))
        for nm, r in (('and', x & y), ('or', x | y), ('xor', x ^ y), ('not', ~x)):
            ls.append(('mask lanes are closed under %s at %d bits' % (nm, b), [v(x), v(y)], v(r)))
    return ls
