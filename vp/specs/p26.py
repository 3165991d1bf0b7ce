"""Masked gather and scatter through vectors of pointers."""
import z3
from ..contract import *
from ..types import *
from .common import *

ASSUME = ['memory is a byte-addressed array; the pointers of enabled lanes are aligned for the pointee, as the API requires']


def cfgs(tier):
    return ['base', 'sse42', 'avx', 'avx2', 'dbg'] if tier == 'quick' else ALLCFG


ELEMS = ['i8', 'u16', 'i32', 'u64', 'f32', 'f64', 'i64', 'u8', 'u32', 'i16', 'u128', 'i128']


def vec(e, n):
    for t in ALL:
        if t.elem == e and t.n == n:
            return t


def fns(tier, cfg):
    out = []
    for n in (2, 4, 8):
        ms = [t for t in MASKS if t.n == n]
        for e in ELEMS:
            v = vec(e, n)
            if v is None:
                continue
            own = mask_of(v)
            use = ms if tier == 'thorough' or e == 'i32' else [x for x in ms if x is own or x.elem == 'msize']
            for m in use:
                for kind in ('cptr', 'mptr'):
                    out.append(rd(kind, n, e, v, m))
                out.append(wr(n, e, v, m))
    return out


def lanes(env, e, w):
    s = scalar(e)
    nb = s.bits // 8
    en = [x != 0 for x in env['m']]
    ok = [z3.Implies(c, z3.And((p & k(s.ealign - 1, 64)) == 0, z3.ULE(p, k((1 << 64) - 65536, 64)), z3.UGE(p, k(4096, 64)))) for c, p in zip(en, env['p'])]
    return nb, en, ok, [(p, nb, c, w) for c, p in zip(en, env['p'])]


def rd(kind, n, e, v, m):
    t = ptrv(kind, n, e)

    def sp(env):
        nb, en, ok, perm = lanes(env, e, False)
        o = []
        for c, p, d in zip(en, env['p'], env['d']):
            bs = [z3.Select(env.heap0, p + k(i, 64)) for i in range(nb)]
            o.append(z3.If(c, bs[0] if nb == 1 else z3.Concat(*reversed(bs)), d))
        return Spec({'o': o}, requires=ok, perm=perm)
    return Fn('read_%sx%d_%s_%s' % (kind, n, e, m), [Out('o', v), In('p', t), In('m', m), In('d', v)], '*o = (*p).read(*m, *d);', sp, heap=True, api='%sx%d<%s>::read' % (kind, n, e))


def wr(n, e, v, m):
    t = ptrv('mptr', n, e)

    def sp(env):
        nb, en, ok, perm = lanes(env, e, True)

        def heap(h):
            # lowest lane first, so that the highest enabled lane wins
            for c, p, x in zip(en, env['p'], env['d']):
                h2 = h
                for i in range(nb):
                    h2 = z3.Store(h2, p + k(i, 64), z3.Extract(8 * i + 7, 8 * i, x) if nb > 1 else x)
                h = z3.If(c, h2, h)
            return h
        return Spec({}, requires=ok, perm=perm, heap=heap)
    return Fn('write_mptrx%d_%s_%s' % (n, e, m), [In('p', t), In('m', m), In('d', v)], '(*p).write(*m, *d);', sp, heap=True, api='mptrx%d<%s>::write' % (n, e))
