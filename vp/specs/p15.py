"""The scalar mask types behave like bool."""
import z3
from ..contract import *
from ..types import *
from .common import *

PRELUDE = '''use core::cmp::{PartialEq, PartialOrd, Ord, Ordering};
use core::hash::{Hash, Hasher};
#[inline(always)] fn enc(x: Ordering) -> i8 { match x { Ordering::Less => -1, Ordering::Equal => 0, Ordering::Greater => 1 } }
pub struct Rec { pub n: usize, pub b: [u8; 16], pub k: [u8; 16] }
impl Rec { #[inline(always)] fn put(&mut self, k: u8, x: u8) { if self.n < 16 { self.b[self.n] = x; self.k[self.n] = k; } self.n += 1; } }
impl Hasher for Rec {
    #[inline(always)] fn finish(&self) -> u64 { 0 }
    #[inline(always)] fn write(&mut self, x: &[u8]) { for &y in x { self.put(1, y) } }
    #[inline(always)] fn write_u8(&mut self, x: u8) { self.put(2, x) }
}
'''


def cfgs(tier):
    return ['base', 'sse42', 'avx', 'avx2', 'dbg'] if tier == 'quick' else ALLCFG


def fns(tier, cfg):
    out = []
    bl = scalar('bool')
    for nm in ('m8', 'm16', 'm32', 'm64', 'm128', 'msize'):
        t = scalar(nm)
        b = t.bits
        api = nm + '::'
        out.append(Fn('new_%s' % t, [Out('o', t), In('a', bl)], '*o = %s::new(*a);' % t, lambda env, b=b: Spec({'o': [mask_t(env.s('a') != 0, b)]}), api=api + 'new'))
        out.append(Fn('test_%s' % t, [Out('o', bl), In('a', t)], '*o = (*a).test();', lambda env: Spec({'o': [bool_t(env.s('a') != 0)]}), api=api + 'test'))
        out.append(Fn('mtest_%s' % t, [Out('o', bl), In('a', t)], '*o = Mask::test(&*a);', lambda env: Spec({'o': [bool_t(env.s('a') != 0)]}), api=api + 'Mask::test'))
        out.append(Fn('default_%s' % t, [Out('o', t)], '*o = Default::default();', lambda env, b=b: Spec({'o': [k(0, b)]}), api=api + 'default'))
        ar = [Out('o', bl), In('a', t), In('b', t)]
        for o, s in (('eq', '=='), ('ne', '!='), ('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>=')):
            def sp(env, o=o):
                x, y = env.s('a') != 0, env.s('b') != 0
                l, g = z3.And(z3.Not(x), y), z3.And(x, z3.Not(y))
                return Spec({'o': [bool_t({'eq': x == y, 'ne': x != y, 'lt': l, 'gt': g, 'le': z3.Not(g), 'ge': z3.Not(l)}[o])]})
            out.append(Fn('%s_%s' % (o, t), ar, '*o = *a %s *b;' % s, sp, api=api + o))

        def cmp(env):
            x, y = env.s('a') != 0, env.s('b') != 0
            return Spec({'o': [z3.If(x == y, k(0, 8), z3.If(y, k(-1, 8), k(1, 8)))]})
        ac = [Out('o', scalar('i8')), In('a', t), In('b', t)]
        out.append(Fn('cmp_%s' % t, ac, '*o = enc((*a).cmp(&*b));', cmp, api=api + 'cmp'))
        out.append(Fn('pcmp_%s' % t, ac, '*o = match (*a).partial_cmp(&*b) { Some(x) => enc(x), None => 2 };', cmp, api=api + 'partial_cmp'))
        for o in ('max', 'min'):
            out.append(Fn('%s_%s' % (o, t), [Out('o', bl), In('a', t), In('b', t)], '*o = Ord::%s(*a, *b).test();' % o,
                          lambda env, o=o: Spec({'o': [bool_t((z3.Or if o == 'max' else z3.And)(env.s('a') != 0, env.s('b') != 0))]}), api=api + o))
        # hashes like the bool it stands for: compare the two recorded hashing traces
        body = 'let mut r = Rec { n: 0, b: [0; 16], k: [0; 16] }; (*a).hash(&mut r); let mut q = Rec { n: 0, b: [0; 16], k: [0; 16] }; (*a).test().hash(&mut q); *o = r.n == q.n && r.b == q.b && r.k == q.k;'
        out.append(Fn('hash_%s' % t, [Out('o', bl), In('a', t)], body, lambda env: Spec({'o': [1]}), api=api + 'hash'))
        out.append(Fn('hashd_%s' % t, ar, 'let mut r = Rec { n: 0, b: [0; 16], k: [0; 16] }; (*a).hash(&mut r); let mut q = Rec { n: 0, b: [0; 16], k: [0; 16] }; (*b).hash(&mut q); *o = r.n == q.n && r.b == q.b && r.k == q.k;',
                      lambda env: Spec({'o': [bool_t((env.s('a') != 0) == (env.s('b') != 0))]}), api=api + 'hash'))
    return out
