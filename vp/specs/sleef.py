"""Assumed contracts of the SLEEF functions packed_simd calls when it is built with its
optional `sleef-sys` back end: a SLEEF vector function applies the scalar function in its
name to every lane on its own.  fabs, sqrt and fma are the exact operations; the others are
uninterpreted functions of the operand bit patterns (the accuracy is SLEEF's)."""
import re
import z3
from .. import fp
from ..llir import Unsupported
from ..sym import POISON, por, bv

NAME = re.compile(r'^@"?Sleef_([a-z]+)([fd])(\d+)_(u\d\d)?(?:sse2|sse4|avx2128|avx2|avx)"?$')
ARITY = {'pow': 2, 'fma': 3}
ONE = {'sin': 'sin', 'cos': 'cos', 'exp': 'exp', 'log': 'log', 'tanh': 'tanh', 'sinpi': 'sinpi', 'cospi': 'cospi'}


def lane(fn, ulp, w, xs):
    if fn == 'fabs':
        return xs[0] & z3.BitVecVal(fp.absmask(w), w)
    if fn == 'sqrt':
        return fp.fun1('sqrt35' if ulp == 'u35' else 'sqrt', xs[0], w)
    if fn == 'fma':
        return fp.fun3('fma', xs[0], xs[1], xs[2], w)
    if fn == 'pow':
        return fp.fun2('pow', xs[0], xs[1], w)
    if fn in ONE:
        # the 3.5 ulp variants are estimates, not the function itself
        return fp.fun1(ONE[fn] + ('35' if ulp == 'u35' else ''), xs[0], w)
    raise Unsupported('SLEEF function ' + fn)


def call(ex, st, name, rt, tys, vals):
    m = NAME.match(name)
    if not m:
        raise Unsupported('SLEEF function ' + name)
    fn, w, n, ulp = m.group(1), 32 if m.group(2) == 'f' else 64, int(m.group(3)), m.group(4)
    args = vals
    out = None
    if tys and tys[0][0] == 'p':
        out, args = vals[0], vals[1:]
    k = ARITY.get(fn, 1)
    if len(args) != k or any(not isinstance(a, list) or len(a) != n for a in args):
        raise Unsupported('SLEEF call ' + name)

    def lanes(f):
        r = []
        for i in range(n):
            p = por(*[a[i][1] for a in args])
            r.append(POISON if p is True else (lane(f, ulp, w, [fp.tobv(a[i][0], w) for a in args]), p))
        return r
    vt = ('v', n, ('f', w))
    if fn == 'sincospi':
        if out is None:
            raise Unsupported('SLEEF call ' + name)
        mod = st.frames[-1].fn.mod
        ex.store(st, out, ('s', [vt, vt], False), [lanes('sinpi'), lanes('cospi')], n * w // 8, mod)
        return None
    if out is not None:
        raise Unsupported('SLEEF call ' + name)
    return lanes(fn)


EXTERNS = [(re.compile(r'^@"?Sleef_'), call)]
