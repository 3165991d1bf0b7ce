"""Construction and lane access."""
import z3
from ..contract import *
from ..types import *
from .common import *
from . import p25


def cfgs(tier):
    return ['base', 'sse42', 'avx', 'avx2', 'dbg'] if tier == 'quick' else ALLCFG


def fns(tier, cfg):
    out = []
    for t in ALL:
        n, b = t.n, t.bits
        m = t.kind == 'm'
        e = scalar('bool') if m else elem(t)
        src = arrn('bool', n) if m else array(t)

        def up(x, b=b, m=m):        # element as given -> lane
            return mask_t(x != 0, b) if m else x

        def down(x, m=m):
            return bool_t(x != 0) if m else x
        api = t.name + '::'
        args = ', '.join('(*a)[%d]' % i for i in range(n))
        out.append(Fn('new_%s' % t, [Out('o', t), In('a', src)], '*o = %s::new(%s);' % (t, args),
                      lambda env, up=up: Spec({'o': [up(x) for x in env['a']]}), api=api + 'new'))
        out.append(Fn('splat_%s' % t, [Out('o', t), In('a', e)], '*o = %s::splat(*a);' % t,
                      lambda env, up=up, n=n: Spec({'o': [up(env.s('a'))] * n}), api=api + 'splat'))
        out.append(Fn('lanes_%s' % t, [Out('o', scalar('usize'))], '*o = if <%s as SimdVector>::LANES == %d { %s::lanes() } else { 0 };' % (t, n, t),
                      lambda env, n=n: Spec({'o': [n]}), api=api + 'lanes'))
        out.append(Fn('default_%s' % t, [Out('o', t)], '*o = Default::default();',
                      lambda env, n=n, b=b: Spec({'o': [k(0, b)] * n}), api=api + 'default'))

        out.append(Fn('size_%s' % t, [Out('o', scalar('usize')), Out('l', scalar('usize'))], '*o = core::mem::size_of::<%s>(); *l = core::mem::align_of::<%s>();' % (t, t),
                      lambda env, t=t: Spec({'o': [t.size], 'l': [t.size]}), api=t.name + ' layout'))

        def ext(env, n=n, b=b, down=down, e=e, chk=True):
            i = env['i']
            r = env['a'][0]
            for j in range(1, n):
                r = z3.If(i == j, env['a'][j], r)
            inb = z3.ULT(i, k(n, 64))
            return Spec({'o': [down(r)]}, requires=[] if chk else [inb], panics=z3.Not(inb) if chk else False)

        def rep(env, n=n, b=b, up=up, chk=True):
            i = env['i']
            inb = z3.ULT(i, k(n, 64))
            return Spec({'o': [z3.If(i == j, up(env.s('v')), env['a'][j]) for j in range(n)]},
                        requires=[] if chk else [inb], panics=z3.Not(inb) if chk else False)
        out.append(Fn('extract_%s' % t, [Out('o', e), In('a', t), Usize('i', n)], '*o = (*a).extract(i);', ext, api=api + 'extract'))
        out.append(Fn('extractu_%s' % t, [Out('o', e), In('a', t), Usize('i', n)], '*o = (*a).extract_unchecked(i);',
                      lambda env, ext=ext: ext(env, chk=False), api=api + 'extract_unchecked'))
        out.append(Fn('replace_%s' % t, [Out('o', t), In('a', t), In('v', e), Usize('i', n)], '*o = (*a).replace(i, *v);', rep, api=api + 'replace'))
        out.append(Fn('replaceu_%s' % t, [Out('o', t), In('a', t), In('v', e), Usize('i', n)], '*o = (*a).replace_unchecked(i, *v);',
                      lambda env, rep=rep: rep(env, chk=False), api=api + 'replace_unchecked'))
        out.append(Fn('fromarr_%s' % t, [Out('o', t), In('a', array(t))], '*o = %s::from(*a);' % t,
                      lambda env: Spec({'o': env['a']}), api=api + 'from(array)'))
        out.append(Fn('toarr_%s' % t, [Out('o', array(t)), In('a', t)], '*o = From::from(*a);',
                      lambda env: Spec({'o': env['a']}), api='From<%s> for array' % t))
    out += p25.subset(('new', 'splat', 'null', 'default', 'lanes', 'extract', 'extract_unchecked', 'replace', 'replace_unchecked', 'from(array)', 'into(array)'))
    return out
