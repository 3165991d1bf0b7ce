"""Writing vectors to slices."""
import z3
from ..contract import *
from ..types import *
from .common import *
from . import p25


def cfgs(tier):
    return ['base', 'sse42', 'avx', 'avx2', 'dbg'] if tier == 'quick' else ALLCFG


def fns(tier, cfg):
    out = []
    for t in NUM:
        e, n = elem(t), t.n
        for nm, al, chk in (('write_to_slice_aligned', True, True), ('write_to_slice_unaligned', False, True), ('write_to_slice_aligned_unchecked', True, False), ('write_to_slice_unaligned_unchecked', False, False)):
            def sp(env, t=t, n=n, al=al, chk=chk):
                ok = z3.ULE(k(n, 64), env.length['s'])
                if al:
                    ok = z3.And(ok, (env.base['s'] & k(t.align - 1, 64)) == 0)
                return Spec({'s': env['a']}, requires=[] if chk else [ok], panics=z3.Not(ok) if chk else False)
            out.append(Fn('%s_%s' % (nm, t), [In('a', t), Slice('s', e, n, mut=True)], '(*a).%s(core::slice::from_raw_parts_mut(s, s_len));' % nm, sp, api='%s::%s' % (t, nm)))
    out += p25.subset(('write_to_slice_aligned', 'write_to_slice_unaligned', 'write_to_slice_aligned_unchecked', 'write_to_slice_unaligned_unchecked'))
    return out

