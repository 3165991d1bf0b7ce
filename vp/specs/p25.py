"""Vectors of pointers: construction, lane access, comparison, slices, arithmetic."""
import z3
from ..contract import *
from ..types import *
from .common import *

ASSUME = ['pointer lanes are specified as 64-bit addresses; provenance is not modelled',
          'offset_from is specified for pointee types of non-zero size']

# pointee, its size
POINTEES = [('u8', 1), ('i32', 4), ('[u8; 3]', 3), ('[u16; 3]', 6), ('u128', 16), ('[u32; 5]', 20), ('()', 0), ('u16', 2), ('f64', 8), ('[u64; 129]', 1032)]


def cfgs(tier):
    return ['base', 'sse42', 'avx', 'avx2', 'dbg'] if tier == 'quick' else ALLCFG


def fns(tier, cfg):
    out = []
    for kind in ('cptr', 'mptr'):
        for n in (2, 4, 8):
            for ti, (pt, sz) in enumerate(POINTEES):
                t = ptrv(kind, n, pt)
                out += one(t, kind, n, sz, '%sx%d_%d' % (kind, n, ti), pt, full=ti in (1, 3) or tier == 'thorough')
    return out


def subset(names):
    """the pointer-vector contracts that instantiate another property's statement"""
    return [f for kind in ('cptr', 'mptr') for n in (2, 4, 8) for ti in (1, 3) for pt, sz in [POINTEES[ti]]
            for f in one(ptrv(kind, n, pt), kind, n, sz, '%sx%d_%d' % (kind, n, ti), pt, True) if f.api.split('::')[-1] in names]


def one(t, kind, n, sz, nm, pt, full):
    out = []
    a1, aa = ptr1(t), ptra(t)
    T = '%sx%d::<%s>' % (kind, n, pt)
    api = '%sx%d::' % (kind, n)
    m, us, is_ = BY['msizex%d' % n], BY['usizex%d' % n], BY['isizex%d' % n]
    bl = scalar('bool')

    def add(f, args, body, spec, a=None):
        out.append(Fn('%s_%s' % (f, nm), args, body, spec, api=api + (a or f)))
    if full:
        add('new', [Out('o', t), In('a', aa)], '*o = %s::new(%s);' % (T, ', '.join('(*a)[%d]' % i for i in range(n))), lambda env: Spec({'o': env['a']}))
        add('splat', [Out('o', t), In('a', a1)], '*o = %s::splat(*a);' % T, lambda env: Spec({'o': [env.s('a')] * n}))
        add('null', [Out('o', t)], '*o = %s::null();' % T, lambda env: Spec({'o': [k(0, 64)] * n}))
        add('default', [Out('o', t)], '*o = Default::default();', lambda env: Spec({'o': [k(0, 64)] * n}))
        add('lanes', [Out('o', scalar('usize'))], '*o = if <%s as SimdVector>::LANES == %d { %s::lanes() } else { 0 };' % (T, n, T), lambda env: Spec({'o': [n]}))
        add('is_null', [Out('o', m), In('a', t)], '*o = (*a).is_null();', lambda env: Spec({'o': [mask_t(x == 0, 64) for x in env['a']]}))

        def ext(env, chk=True):
            i = env['i']
            r = env['a'][0]
            for j in range(1, n):
                r = z3.If(i == j, env['a'][j], r)
            inb = z3.ULT(i, k(n, 64))
            return Spec({'o': [r]}, requires=[] if chk else [inb], panics=z3.Not(inb) if chk else False)

        def rep(env, chk=True):
            i = env['i']
            inb = z3.ULT(i, k(n, 64))
            return Spec({'o': [z3.If(i == j, env.s('v'), env['a'][j]) for j in range(n)]}, requires=[] if chk else [inb], panics=z3.Not(inb) if chk else False)
        add('extract', [Out('o', a1), In('a', t), Usize('i', n)], '*o = (*a).extract(i);', ext)
        add('extractu', [Out('o', a1), In('a', t), Usize('i', n)], '*o = (*a).extract_unchecked(i);', lambda env: ext(env, False), 'extract_unchecked')
        add('replace', [Out('o', t), In('a', t), In('v', a1), Usize('i', n)], '*o = (*a).replace(i, *v);', rep)
        add('replaceu', [Out('o', t), In('a', t), In('v', a1), Usize('i', n)], '*o = (*a).replace_unchecked(i, *v);', lambda env: rep(env, False), 'replace_unchecked')
        add('from', [Out('o', t), In('a', aa)], '*o = From::from(*a);', lambda env: Spec({'o': env['a']}), 'from(array)')
        add('into', [Out('o', aa), In('a', t)], '*o = (*a).into();', lambda env: Spec({'o': env['a']}), 'into(array)')
        cm = {'eq': lambda x, y: x == y, 'ne': lambda x, y: x != y, 'lt': z3.ULT, 'le': z3.ULE, 'gt': z3.UGT, 'ge': z3.UGE}
        for f, g in cm.items():
            add(f, [Out('o', m), In('a', t), In('b', t)], '*o = (*a).%s(*b);' % f, lambda env, g=g: Spec({'o': [mask_t(g(x, y), 64) for x, y in zip(env['a'], env['b'])]}))
        for s, f in (('==', 'peq'), ('!=', 'pne')):
            def pe(env, f=f):
                c = z3.And(*[x == y for x, y in zip(env['a'], env['b'])])
                return Spec({'o': [bool_t(c if f == 'peq' else z3.Not(c))]})
            add(f, [Out('o', bl), In('a', t), In('b', t)], '*o = *a %s *b;' % s, pe, 'operator ' + s)
        for f, al, chk in (('from_slice_aligned', True, True), ('from_slice_unaligned', False, True), ('from_slice_aligned_unchecked', True, False), ('from_slice_unaligned_unchecked', False, False)):
            def fs(env, al=al, chk=chk, wr=False):
                ok = z3.ULE(k(n, 64), env.length['s'])
                if al:
                    ok = z3.And(ok, (env.base['s'] & k(t.align - 1, 64)) == 0)
                return Spec({'s': env['a']} if wr else {'o': env['s'][:n]}, requires=[] if chk else [ok], panics=z3.Not(ok) if chk else False)
            add(f, [Out('o', t), Slice('s', a1, n)], '*o = %s::%s(core::slice::from_raw_parts(s, s_len));' % (T, f), fs)
            w = f.replace('from_slice', 'write_to_slice')
            add(w, [In('a', t), Slice('s', a1, n, mut=True)], '(*a).%s(core::slice::from_raw_parts_mut(s, s_len));' % w, lambda env, fs=fs: fs(env, wr=True))

        def dyn(env):
            res = []
            lg = n.bit_length() - 1
            for x in env['i']:
                lo = z3.Extract(lg - 1, 0, x)
                r = env['a'][0]
                for j in range(1, n):
                    r = z3.If(lo == j, env['a'][j], r)
                res.append(r)
            return Spec({'o': res}, requires=[z3.ULT(x, k(n, 64)) for x in env['i']])
        for mt in MASKS:
            if mt.n == n:
                add('select_%s' % mt, [Out('o', t), In('m', mt), In('a', t), In('b', t)], '*o = (*m).select(*a, *b);',
                    lambda env: Spec({'o': [z3.If(c != 0, x, y) for c, x, y in zip(env['m'], env['a'], env['b'])]}), 'select')
        add('shuffle1_dyn', [Out('o', t), In('a', t), In('i', us)], '*o = (*a).shuffle1_dyn(*i);', dyn)
    S = k(sz, 64)

    def inb(p, x, q, signed):
        """the safety precondition of offset/add/sub: no overflow in the byte offset, no wrap of the address"""
        if sz == 0:
            return []
        lim = ((1 << 63) - 1) // sz
        if signed:
            return [x <= k(lim, 64), x >= k(-lim, 64), z3.If(x < 0, z3.ULE(q, p), z3.ULE(p, q))]
        return [z3.ULE(x, k(lim, 64))]
    for f, c, g, safe in (('offset', is_, lambda p, x: p + x * S, False), ('wrapping_offset', is_, lambda p, x: p + x * S, True), ('add', us, lambda p, x: p + x * S, False),
                          ('sub', us, lambda p, x: p - x * S, False), ('wrapping_add', us, lambda p, x: p + x * S, True), ('wrapping_sub', us, lambda p, x: p - x * S, True)):
        def ar(env, f=f, g=g, safe=safe):
            q = [g(p, x) for p, x in zip(env['a'], env['c'])]
            rq = []
            if not safe:
                for p, x, r in zip(env['a'], env['c'], q):
                    rq += inb(p, x, r, f == 'offset')
                    if f == 'add':
                        rq.append(z3.ULE(p, r))
                    if f == 'sub':
                        rq.append(z3.ULE(r, p))
            return Spec({'o': q}, requires=rq)
        add(f, [Out('o', t), In('a', t), In('c', c)], '*o = (*a).%s(*c);' % f, ar)
    if sz:
        add('wrapping_offset_from', [Out('o', is_), In('a', t), In('b', t)], '*o = (*a).wrapping_offset_from(*b);', lambda env: Spec({'o': [(x - y) / S for x, y in zip(env['a'], env['b'])]}))

        def off(env):
            rq = []
            for x, y in zip(env['a'], env['b']):
                d = x - y
                # both in one allocation: the distance is a multiple of the size and does not overflow
                rq += [z3.If(d < 0, z3.ULE(x, y), z3.ULE(y, x)), z3.SRem(d, S) == 0]
            return Spec({'o': [(x - y) / S for x, y in zip(env['a'], env['b'])]}, requires=rq)
        add('offset_from', [Out('o', is_), In('a', t), In('b', t)], '*o = (*a).offset_from(*b);', off)
    return out


def lemmas(tier):
    """offset_from is the inverse of offset (no overflow in the byte distance)"""
    out = []
    for _, sz in POINTEES:
        if not sz:
            continue
        p, c = z3.BitVecs('p c', 64)
        S = k(sz, 64)
        lim = k((1 << 63) // sz // 2, 64)
        out.append(('offset_from(offset(p, c), p) == c, size %d' % sz, [c < lim, c > -lim], (p + c * S - p) / S == c))
    return out
