"""select picks each lane by the mask."""
import z3
from ..contract import *
from ..types import *
from .common import *
from . import p25


def cfgs(tier):
    return ['base', 'sse42', 'avx', 'avx2', 'dbg'] if tier == 'quick' else ALLCFG


def fns(tier, cfg):
    out = []
    for m in MASKS:
        for t in ALL:
            if t.n != m.n:
                continue
            if tier == 'quick' and cfg != 'base' and m.bits != t.bits:
                continue
            out.append(Fn('select_%s_%s' % (m, t), [Out('o', t), In('m', m), In('a', t), In('b', t)], '*o = (*m).select(*a, *b);',
                          lambda env: Spec({'o': [z3.If(c != 0, x, y) for c, x, y in zip(env['m'], env['a'], env['b'])]}), api='%s::select(%s)' % (m, t)))
    out += p25.subset(('select',))
    return out
