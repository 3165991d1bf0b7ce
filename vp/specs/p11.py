"""Hashing: a vector feeds a hasher the same bytes as the array of its lanes."""
import re
import z3
from ..contract import *
from ..types import *
from .common import *

PRELUDE = '''use core::hash::{Hash, Hasher};
pub struct Rec<const N: usize> { pub n: usize, pub b: [u8; N] }
impl<const N: usize> Rec<N> { #[inline(always)] fn new() -> Self { Rec { n: 0, b: [0; N] } } }
impl<const N: usize> Hasher for Rec<N> {
    #[inline(always)] fn finish(&self) -> u64 { 0 }
    #[inline(always)] fn write(&mut self, x: &[u8]) { let mut i = 0; while i < x.len() { if self.n < N { self.b[self.n] = x[i]; } self.n += 1; i += 1; } }
}
'''


def cfgs(tier):
    return ['base', 'sse42', 'avx', 'avx2', 'dbg'] if tier == 'quick' else ALLCFG


def fns(tier, cfg):
    out = []
    vs = [(t, array(t), t.bits // 8 * t.n) for t in INTS]
    vs += [(p, ptra(p), 8 * p.n) for kk in ('cptr', 'mptr') for n in (2, 4, 8) for pt in ('i32', 'u8', '[u16; 3]') for p in [ptrv(kk, n, pt)]]
    for t, arr, sz in vs:
        N = sz + 16
        nm = re.sub(r'\W+', '_', str(t))
        w = arrn('u8', N)
        # the recorded byte streams are produced as outputs and must agree byte for byte
        body = ('let mut r = Rec::<%d>::new(); (*a).hash(&mut r); *o = r.b; *on = r.n; '
                'let x: %s = core::mem::transmute_copy(&*a); let mut q = Rec::<%d>::new(); x.hash(&mut q); *p = q.b; *pn = q.n;' % (N, arr, N))

        def sp(env, N=N, sz=sz):
            def checks(v):
                return [('same number of bytes hashed', v['on'][0] == v['pn'][0] if not isinstance(v['on'][0], int) or not isinstance(v['pn'][0], int) else z3.BoolVal(v['on'][0] == v['pn'][0]))] + \
                    [('hashed byte %d' % i, bv8(x) == bv8(y)) for i, (x, y) in enumerate(zip(v['o'], v['p']))] + [('the recording holds the whole stream', z3.ULE(bv64(v['pn'][0]), k(N, 64)))]
            return Spec({}, checks=checks)
        out.append(Fn('hash_%s' % nm, [Out('o', w), Out('on', scalar('usize')), Out('p', w), Out('pn', scalar('usize')), In('a', t)], body, sp, api='%s::hash' % t))
    return out


def bv8(x):
    return k(x, 8) if isinstance(x, int) else x


def bv64(x):
    return k(x, 64) if isinstance(x, int) else x
