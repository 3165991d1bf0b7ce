"""Shuffles with immediate indices."""
import random
import z3
from ..contract import *
from ..types import *
from .common import *

ASSUME = ['index lists are compile-time constants: the listed patterns are decided for all lane values; other index lists are not instantiated']


def cfgs(tier):
    return ['base', 'sse42', 'avx', 'avx2', 'dbg'] if tier == 'quick' else ALLCFG


def patterns(n, m, tier):
    """index lists of length m over 2n lanes"""
    rng = random.Random('shuffle/%d/%d' % (n, m))
    ps = [[i % (2 * n) for i in range(m)], [(2 * n - 1 - i) % (2 * n) for i in range(m)], [((i >> 1) + (i & 1) * n) % (2 * n) for i in range(m)], [2 * n - 1] * m]
    for _ in range(3 if tier == 'quick' else 12):
        ps.append([rng.randrange(2 * n) for _ in range(m)])
    return ps


def cyclic(n, m):
    """2n index lists that together put every index at every position"""
    return [[(c * i + s) % (2 * n) for i in range(m)] for s in range(2 * n) for c in (1 if s % 2 else 2 * n - 1,)]


def fns(tier, cfg):
    out = []
    for t in ALL:
        for m in (2, 4, 8, 16, 32, 64):
            d = BY.get('%sx%d' % (t.elem, m))
            if d is None or m > 2 * t.n or (t.elem == 'm16' and m == 32):
                continue
            ps = patterns(t.n, m, tier)
            if m in (t.n, 2 * t.n) and (tier == 'thorough' or cfg == 'base') and t.kind == 'u':
                ps += cyclic(t.n, m)
            for j, p in enumerate(ps):
                out.append(Fn('sh_%s_%d_%d' % (t, m, j), [Out('o', d), In('a', t), In('b', t)], 'let (x, y) = (*a, *b); *o = shuffle!(x, y, [%s]);' % ', '.join(map(str, p)),
                              lambda env, p=p: Spec({'o': [(env['a'] + env['b'])[i] for i in p]}), api='shuffle!(%s, %s, [..%d])' % (t, t, m)))
                if j in (0, 1, 4, 5) or j >= 7 and m == t.n and j % 2:
                    q = [i % t.n for i in p]
                    out.append(Fn('sh1_%s_%d_%d' % (t, m, j), [Out('o', d), In('a', t)], 'let x = *a; *o = shuffle!(x, [%s]);' % ', '.join(map(str, q)),
                                  lambda env, q=q: Spec({'o': [env['a'][i] for i in q]}), api='shuffle!(%s, [..%d])' % (t, m)))
    return out
