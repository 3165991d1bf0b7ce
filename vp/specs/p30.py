"""Summing and multiplying sequences of vectors (iterators)."""
import z3
from ..contract import *
from ..types import *
from .. import fp
from .common import *

ASSUME = ['sequences of any length: proved as base case and step handed to Iterator::fold, whose own contract (apply the step to each item in order, starting from the base case) is assumed of the standard library',
          'an implementation that draws items with next() instead of fold is decided for sequences of 0 to 3 vectors only (all lane values): bounded',
          'IEEE addition and multiplication are uninterpreted functions of the operand bit patterns']

PRELUDE = '''
pub struct Probe<T> { acc: T, x: T, init: *mut T, st: *mut T, used: *mut bool }
impl<T: Copy> Probe<T> {
    #[inline(always)] fn drive<I, B, F: FnMut(B, I) -> B>(self, x: I, init: B, mut f: F) -> B {
        unsafe {
            if core::mem::size_of::<B>() != core::mem::size_of::<T>() || core::mem::align_of::<B>() != core::mem::align_of::<T>() { *self.used = true; return init; }
            *self.init = core::mem::transmute_copy(&init);
            let acc: B = core::mem::transmute_copy(&self.acc);
            let r = f(acc, x);
            *self.st = core::mem::transmute_copy(&r);
            r
        }
    }
}
impl<T: Copy> Iterator for Probe<T> {
    type Item = T;
    #[inline(always)] fn next(&mut self) -> Option<T> { unsafe { *self.used = true; } None }
    #[inline(always)] fn fold<B, F: FnMut(B, T) -> B>(self, init: B, f: F) -> B { let x = self.x; self.drive(x, init, f) }
}
pub struct ProbeRef<'a, T>(Probe<T>, &'a T);
impl<'a, T: Copy> Iterator for ProbeRef<'a, T> {
    type Item = &'a T;
    #[inline(always)] fn next(&mut self) -> Option<&'a T> { unsafe { *self.0.used = true; } None }
    #[inline(always)] fn fold<B, F: FnMut(B, &'a T) -> B>(self, init: B, f: F) -> B { let x = self.1; self.0.drive(x, init, f) }
}
'''


def cfgs(tier):
    return ['base', 'sse42', 'avx', 'avx2', 'dbg'] if tier == 'quick' else ALLCFG


def ident(t, o):
    if t.kind == 'f':
        return fp.tobv(0 if o == 'sum' else fp.one(t.bits), t.bits)
    return k(0 if o == 'sum' else 1, t.bits)


def step(t, o, a, x):
    if t.kind == 'f':
        return fp.tobv(fp.fbin('fadd' if o == 'sum' else 'fmul', a, x, t.bits), t.bits)
    return a + x if o == 'sum' else a * x


def fns(tier, cfg):
    out = []
    for t in NUM:
        for o in ('sum', 'product'):
            tr = o.capitalize()
            for cnt in range(0, 4):
                args = [Out('o', t)] + [In('a%d' % i, t) for i in range(cnt)]

                def sp(env, t=t, o=o, cnt=cnt):
                    acc = []
                    for l in range(t.n):
                        x = ident(t, o)
                        for i in range(cnt):
                            x = step(t, o, x, env['a%d' % i][l])
                        acc.append(x)
                    return Spec({'o': acc})
                arr = '[%s]' % ', '.join('*a%d' % i for i in range(cnt))
                ty = '[%s; %d]' % (t, cnt)
                out.append(Fn('it_%s%d_%s' % (o, cnt, t), args, 'let x: %s = %s; *o = <%s as core::iter::%s>::%s(IntoIterator::into_iter(x));' % (ty, arr, t, tr, o), sp, api='%s::iter %s' % (t, o)))
                out.append(Fn('itr_%s%d_%s' % (o, cnt, t), args, 'let x: %s = %s; *o = x.iter().%s::<%s>();' % (ty, arr, o, t), sp, api='%s::iter %s by ref' % (t, o)))
            for ref in (0, 1):
                def ind(env, t=t, o=o):
                    def checks(v):
                        u = v['used'][0]
                        un = z3.BoolVal(bool(u)) if isinstance(u, int) else u != 0
                        g = []
                        for l in range(t.n):
                            st = step(t, o, env['acc'][l], env['x'][l])
                            g.append(('base case, lane %d' % l, z3.Or(un, bvn(v['init'][l], t.bits) == ident(t, o))))
                            g.append(('step, lane %d' % l, z3.Or(un, bvn(v['st'][l], t.bits) == st)))
                            g.append(('the folded value is returned, lane %d' % l, z3.Or(un, bvn(v['o'][l], t.bits) == bvn(v['st'][l], t.bits))))
                        return g
                    return Spec({}, checks=checks)
                pb = 'Probe { acc: *acc, x: *x, init, st, used }'
                out.append(Fn('fold%s_%s_%s' % ('r' if ref else '', o, t), [Out('o', t), Out('init', t), Out('st', t), Out('used', scalar('bool')), In('acc', t), In('x', t)],
                              '*used = false; *init = *acc; *st = *acc; *o = core::iter::Iterator::%s::<%s>(%s);' % (o, t, 'ProbeRef(%s, &*x)' % pb if ref else pb), ind,
                              api='%s::iter %s%s, any length' % (t, o, ' by ref' if ref else '')))
    return out


def bvn(x, w):
    return k(x, w) if isinstance(x, int) else x
