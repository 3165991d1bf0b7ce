"""LLVM intrinsics (target independent and x86)."""
import re
import z3
from . import fp
from .llir import Unsupported, I1, sizeof
from .sym import (bv, zb, por, POISON, Ptr, mask, sx, concat, ite, icmp_t, AND, OR, NOT, STOP, wid, bitw)


def lanewise(rt, f, *vs):
    if rt[0] == 'v':
        return [f(rt[2], *[v[i] for v in vs]) for i in range(rt[1])]
    return f(rt, *vs)


def pz(f):
    """strict in poison"""
    def g(t, *a):
        p = por(*[x[1] for x in a])
        if p is True:
            return POISON
        return (f(t[1], *[x[0] for x in a]), p)
    return g


def ctpop(w, x):
    if isinstance(x, int):
        return bin(x).count('1')
    r = z3.BitVecVal(0, w)
    for i in range(w):
        r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, x))
    return r


def popcount_term(x, w):
    return ctpop(w, x)


def ctlz(w, x):
    if isinstance(x, int):
        return w - x.bit_length()
    r = z3.BitVecVal(w, w)
    for i in range(w):
        r = z3.If(z3.Extract(i, i, x) == z3.BitVecVal(1, 1), z3.BitVecVal(w - 1 - i, w), r)
    return r


def cttz(w, x):
    if isinstance(x, int):
        return w if x == 0 else (x & -x).bit_length() - 1
    r = z3.BitVecVal(w, w)
    for i in range(w - 1, -1, -1):
        r = z3.If(z3.Extract(i, i, x) == z3.BitVecVal(1, 1), z3.BitVecVal(i, w), r)
    return r


def bswap(w, x):
    n = w // 8
    if isinstance(x, int):
        return int.from_bytes(x.to_bytes(n, 'little'), 'big')
    return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(n)])


def bitreverse(w, x):
    if isinstance(x, int):
        return int(bin(x)[2:].zfill(w)[::-1], 2)
    return z3.Concat(*[z3.Extract(i, i, x) for i in range(w)])


def mm(name):
    pred = {'smin': 'slt', 'smax': 'sgt', 'umin': 'ult', 'umax': 'ugt'}[name]

    def f(w, a, b):
        if w == 1:
            raise Unsupported('i1 minmax')
        return minmax_aci(name, pred, w, a, b)
    return f


_leaves = {}


def minmax_aci(name, pred, w, a, b):
    """integer min/max is associative, commutative and idempotent: build the
    fold over the set of leaves in a fixed order, so that every association
    yields the same term"""
    if isinstance(a, int) and isinstance(b, int):
        return ite(icmp_t(pred, w, a, b), a, b, w)
    s = {}
    for x in (a, b):
        x = bv(x, w)
        e = _leaves.get((name, x.get_id()))
        if e is not None:
            for y in e[1]:
                s[y.get_id()] = y
        else:
            s[x.get_id()] = x
    ls = [s[i] for i in sorted(s)]
    r = ls[0]
    for x in ls[1:]:
        r = ite(icmp_t(pred, w, r, x), r, x, w)
        if isinstance(r, int):
            r = bv(r, w)
    _leaves[(name, r.get_id())] = (r, ls)
    return r


def rotl(x, n, w):
    """rotate left by n mod w (w a power of two)"""
    s = n & z3.BitVecVal(w - 1, w)
    return z3.If(s == 0, x, (x << s) | z3.LShR(x, z3.BitVecVal(w, w) - s))


def fsh(left):
    def f(w, a, b, c):
        if not isinstance(c, int) and not isinstance(a, int) and w & (w - 1) == 0 and w >= 8 and hasattr(a, 'eq') and hasattr(b, 'eq') and a.eq(b):
            return rotl(a, c if left else -c, w)
        if isinstance(c, int):
            s = c % w
            ab = z3.Concat(bv(a, w), bv(b, w))
            if left:
                r = z3.Extract(2 * w - 1, w, ab << z3.BitVecVal(s, 2 * w))
            else:
                r = z3.Extract(w - 1, 0, z3.LShR(ab, z3.BitVecVal(s, 2 * w)))
            r = z3.simplify(r)
            return r.as_long() if z3.is_bv_value(r) else r
        ab = z3.Concat(bv(a, w), bv(b, w))
        s = z3.ZeroExt(w, z3.URem(bv(c, w), z3.BitVecVal(w, w)))
        if left:
            return z3.Extract(2 * w - 1, w, ab << s)
        return z3.Extract(w - 1, 0, z3.LShR(ab, s))
    return f


def binv(op):
    from .sym import cop, BVOPS

    def f(w, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return cop(op, w, a, b)
        return BVOPS[op](bv(a, w), bv(b, w))
    return f


def sat(op, signed):
    def f(w, a, b):
        a, b = bv(a, w), bv(b, w)
        e = z3.SignExt if signed else z3.ZeroExt
        r = e(2, a) + e(2, b) if op == 'add' else e(2, a) - e(2, b)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, mask(w))
        L, H = z3.BitVecVal(lo, w + 2), z3.BitVecVal(hi, w + 2)
        return z3.Extract(w - 1, 0, z3.If(r < L, L, z3.If(r > H, H, r)))
    return f


def memcpy(ex, st, dst, src, n, mod):
    if por(dst[1], src[1], n[1]) is not None:
        raise Unsupported('poison memcpy')
    n = n[0]
    if not isinstance(n, int):
        n = z3.simplify(n)
        if not z3.is_bv_value(n):
            raise Unsupported('symbolic memcpy size')
        n = n.as_long()
    if n == 0:
        return
    d, s = dst[0], src[0]
    if not isinstance(d, Ptr) or not isinstance(s, Ptr) or not isinstance(d.off, int) or not isinstance(s.off, int) \
            or d.obj.kind == 'heap' or s.obj.kind == 'heap':
        t = ('a', n, ('i', 8))
        v = ex.load(st, src, t, 1, mod)
        ex.store(st, dst, t, v, 1, mod)
        return
    if not ex.check_access(st, s, n, 1, False):
        return
    if not ex.check_access(st, d, n, 1, True):
        return
    sc = st.mem[s.obj.oid]
    cells = [sc.get(s.off + i) for i in range(n)]
    dc = st.mem[d.obj.oid]
    for i, c in enumerate(cells):
        if c is None:
            dc.pop(d.off + i, None)
        else:
            dc[d.off + i] = c


def call(ex, st, fr, name, rt, tys, vals, fl):
    mod = fr.fn.mod
    base = name.split('.')[0]
    if name.startswith(('lifetime.', 'experimental.noalias', 'dbg.', 'donothing', 'sideeffect')):
        return None
    if base == 'assume':
        c, p = vals[0]
        ex.must(st, AND(c, NOT(zb(p)) if p is not None else True), 'compiler assumption holds')
        return None
    if base in ('trap', 'debugtrap', 'ubsantrap'):
        ex.finish(st, 'abort')
        return STOP
    if base == 'expect':
        return vals[0]
    if base in ('memcpy', 'memmove'):
        memcpy(ex, st, vals[0], vals[1], vals[2], mod)
        return None
    if base == 'memset':
        n = vals[2][0]
        if not isinstance(n, int):
            raise Unsupported('symbolic memset')
        if n:
            ex.store(st, vals[0], ('a', n, ('i', 8)), [vals[1]] * n, 1, mod)
        return None
    if base == 'ctpop':
        return lanewise(rt, pz(ctpop), vals[0])
    if base in ('ctlz', 'cttz'):
        z = vals[1][0]

        def f(t, a):
            if a[1] is True:
                return POISON
            p = a[1]
            if z:
                p = por(p, (a[0] == 0) if isinstance(a[0], int) else a[0] == z3.BitVecVal(0, t[1]))
            return ((ctlz if base == 'ctlz' else cttz)(t[1], a[0]), p)
        return lanewise(rt, f, vals[0])
    if base == 'bswap':
        return lanewise(rt, pz(bswap), vals[0])
    if base == 'bitreverse':
        return lanewise(rt, pz(bitreverse), vals[0])
    if base in ('fshl', 'fshr'):
        return lanewise(rt, pz(fsh(base == 'fshl')), *vals)
    if base in ('smin', 'smax', 'umin', 'umax'):
        return lanewise(rt, pz(mm(base)), *vals)
    if base == 'abs':
        z = vals[1][0]

        def f(t, a):
            if a[1] is True:
                return POISON
            w = t[1]
            x = bv(a[0], w)
            p = a[1]
            if z:
                p = por(p, x == z3.BitVecVal(1 << (w - 1), w))
            return (z3.If(x < 0, -x, x), p)
        return lanewise(rt, f, vals[0])
    m = re.match(r'^([us])(add|sub)\.sat\.', name)
    if m:
        return lanewise(rt, pz(sat(m.group(2), m.group(1) == 's')), *vals)
    m = re.match(r'^([us])(add|sub|mul)\.with\.overflow\.', name)
    if m and rt[0] == 's' and rt[1][0][0] == 'i':
        w = rt[1][0][1]
        p = por(vals[0][1], vals[1][1])
        if p is True:
            return [POISON, POISON]
        x, y = vals[0][0], vals[1][0]
        lit = isinstance(x, int) and isinstance(y, int)
        r = binv(m.group(2))(w, x, y)
        o = ex.ovf(m.group(2), w, x, y, m.group(1) == 's', lit)
        return [(r, p), (o, p)]
    m = re.match(r'^vector\.reduce\.(\w+)\.', name)
    if m:
        return reduce(ex, m.group(1), rt, tys, vals, fl)
    if base in ('sqrt', 'sin', 'cos', 'exp', 'log', 'floor', 'ceil', 'trunc', 'rint', 'nearbyint', 'round', 'roundeven', 'exp2', 'log2', 'log10'):
        return lanewise(rt, pz(lambda w, a: fp.fun1(base, a, w)), vals[0])
    if base == 'fabs':
        return lanewise(rt, pz(lambda w, a: fp.fabs(a, w)), vals[0])
    if base == 'copysign':
        def f(w, a, b):
            return (bv(a, w) & z3.BitVecVal(fp.absmask(w), w)) | (bv(b, w) & z3.BitVecVal(fp.signbit(w), w))
        return lanewise(rt, pz(f), *vals)
    if base in ('minnum', 'maxnum'):
        return lanewise(rt, pz(lambda w, a, b: fp.minmax(base, a, b, w)), *vals)
    if base == 'pow':
        return lanewise(rt, pz(lambda w, a, b: fp.fun2('pow', a, b, w)), *vals)
    if base == 'powi':
        raise Unsupported('powi')
    if base == 'fma':
        return lanewise(rt, pz(lambda w, a, b, c: fp.fun3('fma', a, b, c, w)), *vals)
    if base == 'fmuladd':
        return lanewise(rt, pz(lambda w, a, b, c: fp.fmuladd(a, b, c, w)), *vals)
    m = re.match(r'^fpto([us])i\.sat\.', name)
    if m:
        dt = rt[2] if rt[0] == 'v' else rt
        stt = tys[0][2] if tys[0][0] == 'v' else tys[0]
        sgn = m.group(1) == 's'
        return lanewise(rt, lambda t, a: POISON if a[1] is True else (fp.fptoi_sat(a[0], stt[1], dt[1], sgn), a[1]), vals[0])
    if name.startswith('is.fpclass'):
        k = vals[1][0]
        stt = tys[0][2] if tys[0][0] == 'v' else tys[0]
        w = stt[1]

        def f(t, a):
            if a[1] is True:
                return POISON
            x = bv(a[0], w)
            sgn = z3.Extract(w - 1, w - 1, x) == z3.BitVecVal(1, 1)
            ab = x & z3.BitVecVal(fp.absmask(w), w)
            inf = z3.BitVecVal(fp.inf(w), w)
            qb = z3.BitVecVal(1 << (fp.MAN[w] - 1), w)
            mn = z3.BitVecVal(1 << fp.MAN[w], w)
            nan = z3.UGT(ab, inf)
            isinf = ab == inf
            zero = ab == 0
            sub = z3.And(z3.Not(zero), z3.ULT(ab, mn))
            norm = z3.And(z3.UGE(ab, mn), z3.ULT(ab, inf))
            cls = [z3.And(nan, (x & qb) == 0), z3.And(nan, (x & qb) != 0), z3.And(isinf, sgn), z3.And(norm, sgn), z3.And(sub, sgn),
                   z3.And(zero, sgn), z3.And(zero, z3.Not(sgn)), z3.And(sub, z3.Not(sgn)), z3.And(norm, z3.Not(sgn)), z3.And(isinf, z3.Not(sgn))]
            return (z3.Or(*[c for i, c in enumerate(cls) if k >> i & 1]), a[1])
        return lanewise(rt, f, vals[0])
    if name.startswith('masked.gather'):
        ptrs, al, mk, pt = vals
        et = rt[2]
        out = []
        for i in range(rt[1]):
            out.append(masked_load1(ex, st, ptrs[i], al[0], mk[i], pt[i], et, mod))
        return out
    if name.startswith('masked.scatter'):
        v, ptrs, al, mk = vals
        et = tys[0][2]
        for i in range(tys[0][1]):
            masked_store1(ex, st, ptrs[i], al[0], mk[i], v[i], et, mod)
        return None
    if name.startswith('masked.load'):
        p, al, mk, pt = vals
        et = rt[2]
        n = bitw(et) // 8
        return [masked_load1(ex, st, ex.gep(st, ('i', 8), [(('p',), p), (('i', 64), (i * n, None))], mod), n, mk[i], pt[i], et, mod) for i in range(rt[1])]
    if name.startswith('masked.store'):
        v, p, al, mk = vals
        et = tys[0][2]
        n = bitw(et) // 8
        for i in range(tys[0][1]):
            masked_store1(ex, st, ex.gep(st, ('i', 8), [(('p',), p), (('i', 64), (i * n, None))], mod), n, mk[i], v[i], et, mod)
        return None
    if name.startswith('x86.'):
        return x86(ex, st, name, rt, tys, vals)
    if base == 'ptrmask':
        raise Unsupported('ptrmask')
    raise Unsupported('intrinsic ' + name)


def masked_load1(ex, st, ptr, al, m, pt, et, mod):
    c, cp = m
    if cp is not None:
        ex.must(st, False if cp is True else z3.Not(cp), 'mask is not poison')
    if c is False:
        return pt
    if c is True:
        return ex.load(st, ptr, et, al, mod)
    if ptr[1] is not None or (isinstance(ptr[0], Ptr) and ptr[0].obj.kind != 'heap'):
        raise Unsupported('masked load')
    v = ex.heap_load(st, bv(ptr[0], 64), et, al, mod, guard=c)
    return ex.sel1(c, v, pt, et)


def masked_store1(ex, st, ptr, al, m, v, et, mod):
    c, cp = m
    if cp is not None:
        ex.must(st, False if cp is True else z3.Not(cp), 'mask is not poison')
    if c is False:
        return
    if c is True:
        return ex.store(st, ptr, et, v, al, mod)
    if ptr[1] is not None or (isinstance(ptr[0], Ptr) and ptr[0].obj.kind != 'heap'):
        raise Unsupported('masked store')
    ex.heap_store(st, bv(ptr[0], 64), et, v, al, mod, guard=c)


def reduce(ex, op, rt, tys, vals, fl):
    if op in ('fadd', 'fmul'):
        if 'reassoc' in fl or 'fast' in fl:
            raise Unsupported('reassociated reduction')
        acc = vals[0]
        w = rt[1]
        for x in vals[1]:
            p = por(acc[1], x[1])
            if p is True:
                return POISON
            acc = (fp.fbin(op, acc[0], x[0], w), p)
        return acc
    v = vals[0]
    p = por(*[x[1] for x in v])
    if p is True:
        return POISON
    w = rt[1]
    xs = [x[0] for x in v]
    if op in ('fmin', 'fmax'):
        acc = xs[0]
        for x in xs[1:]:
            acc = fp.minmax('minnum' if op == 'fmin' else 'maxnum', acc, x, w)
        return (acc, p)
    if w == 1:
        if op == 'and':
            return (AND(*xs), p)
        if op == 'or':
            return (OR(*xs), p)
        acc = xs[0]
        for x in xs[1:]:
            acc = ex.bin1(None, op, I1, (acc, None), (x, None), [])[0]
        return (acc, p)
    f = mm(op) if op in ('smin', 'smax', 'umin', 'umax') else binv(op)
    acc = xs[0]
    for x in xs[1:]:
        acc = f(w, acc, x)
    return (acc, p)


def msb(x, w):
    if isinstance(x, int):
        return bool(x >> (w - 1))
    return z3.Extract(w - 1, w - 1, x) == z3.BitVecVal(1, 1)


def x86(ex, st, name, rt, tys, vals):
    n = name[4:]
    if 'movmsk' in n:
        v = vals[0]
        w = bitw(tys[0][2])
        p = por(*[x[1] for x in v])
        if p is True:
            return POISON
        bits = [msb(x[0], w) for x in v]
        r = concat(bits + [False] * (rt[1] - len(bits)), 1)
        return (r, p)
    if n in ('ssse3.pshuf.b.128', 'avx2.pshuf.b'):
        a, b = vals
        out = []
        for i in range(rt[1]):
            half = (i // 16) * 16
            ix, ip = b[i]
            src = a[half:half + 16]
            p = por(ip, *[s[1] for s in src])
            if p is True:
                out.append(POISON)
                continue
            if isinstance(ix, int):
                out.append((0, None) if ix & 0x80 else src[ix & 15])
                continue
            lo = z3.Extract(3, 0, ix)
            r = bv(src[15][0], 8)
            for k in range(14, -1, -1):
                r = z3.If(lo == z3.BitVecVal(k, 4), bv(src[k][0], 8), r)
            out.append((z3.If(msb(ix, 8), z3.BitVecVal(0, 8), r), p))
        return out
    if n in ('avx2.permd', 'avx2.permps'):
        a, b = vals
        return [perm(a, b[i], 3, 32, range(8)) for i in range(8)]
    if n in ('avx.vpermilvar.ps', 'avx.vpermilvar.ps.256'):
        a, b = vals
        return [perm(a, b[i], 2, 32, range((i // 4) * 4, (i // 4) * 4 + 4)) for i in range(rt[1])]
    if n in ('avx.vpermilvar.pd', 'avx.vpermilvar.pd.256'):
        a, b = vals
        out = []
        for i in range(rt[1]):
            x, p = b[i]
            sh = (x >> 1) if isinstance(x, int) else z3.LShR(x, z3.BitVecVal(1, 64))
            out.append(perm(a, (sh, p), 1, 64, range((i // 2) * 2, (i // 2) * 2 + 2)))
        return out
    m = re.match(r'^(avx|sse41)\.(?:ptest|vtest)(c|z|nzc)(?:\.(ps|pd))?(?:\.256)?$', n)
    if m:
        a, b = vals
        p = por(*[x[1] for x in a + b])
        if p is True:
            return POISON
        w = bitw(tys[0][2])
        if m.group(3):
            z = [AND(msb(x[0], w), msb(y[0], w)) for x, y in zip(a, b)]
            c = [AND(NOT(msb(x[0], w)), msb(y[0], w)) for x, y in zip(a, b)]
        else:
            z = [(bv(x[0], w) & bv(y[0], w)) != 0 for x, y in zip(a, b)]
            c = [(~bv(x[0], w) & bv(y[0], w)) != 0 for x, y in zip(a, b)]
        ZF = NOT(OR(*z))
        CF = NOT(OR(*c))
        r = {'c': CF, 'z': ZF, 'nzc': AND(NOT(ZF), NOT(CF))}[m.group(2)]
        if isinstance(r, bool):
            return (int(r), p)
        return (z3.If(r, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)), p)
    m = re.match(r'^(?:sse|avx)\.(rsqrt|rcp)\.(?:ps|ss)(?:\.256)?$', n)
    if m and rt[0] == 'v':
        return lanewise(rt, pz(lambda w, a: fp.fun1('x86' + m.group(1), a, w)), vals[0])
    raise Unsupported('intrinsic llvm.' + name)


def perm(a, b, k, w, rng):
    ix, ip = b
    src = [a[j] for j in rng]
    p = por(ip, *[s[1] for s in src])
    if p is True:
        return POISON
    n = 1 << k
    if isinstance(ix, int):
        return src[ix & (n - 1)]
    lo = z3.Extract(k - 1, 0, ix)
    r = bv(src[n - 1][0], w)
    for j in range(n - 2, -1, -1):
        r = z3.If(lo == z3.BitVecVal(j, k), bv(src[j][0], w), r)
    return (r, p)
