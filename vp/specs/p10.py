"""== and != compare whole vectors."""
import z3
from ..contract import *
from ..types import *
from .. import fp
from .common import *
from . import p25

PRELUDE = 'use core::cmp::{PartialEq, PartialOrd, Ord, Ordering};\n'


def cfgs(tier):
    return ['base', 'sse42', 'avx', 'avx2', 'dbg'] if tier == 'quick' else ALLCFG + ['nosse']


def fns(tier, cfg):
    out = []
    o = Out('o', scalar('bool'))
    for t in ALL:
        def sp(env, t=t, neg=False):
            c = z3.And(*[fp.B(eq(t, x, y)) for x, y in zip(env['a'], env['b'])])
            return Spec({'o': [bool_t(z3.Not(c) if neg else c)]})
        ne = lambda env, sp=sp: sp(env, neg=True)
        ar = [o, In('a', t), In('b', t)]
        out.append(Fn('eq_%s' % t, ar, '*o = *a == *b;', sp, api='%s == ' % t))
        out.append(Fn('ne_%s' % t, ar, '*o = *a != *b;', ne, api='%s != ' % t))
        if t.kind != 'f':
            out.append(Fn('leq_%s' % t, ar, '*o = (*a).lex_ord() == (*b).lex_ord();', sp, api='LexicographicallyOrdered<%s> ==' % t))
            out.append(Fn('lne_%s' % t, ar, '*o = (*a).partial_lex_ord() != (*b).partial_lex_ord();', ne, api='LexicographicallyOrdered<%s> !=' % t))
            out.append(Fn('eqreq_%s' % t, [], 'fn f<T: Eq>() {} f::<%s>(); f::<LexicographicallyOrdered<%s>>();' % (t, t), lambda env: Spec({}, checks=lambda a: [('is Eq', z3.BoolVal(True))]), api='%s: Eq' % t, replay=False))
    out += p25.subset(('operator ==', 'operator !='))
    return out
