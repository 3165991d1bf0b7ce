"""Floating point, as the verifier sees it.

Values are bit patterns.  Comparisons and classification are exact (defined on
the bits).  Arithmetic and library functions are uninterpreted functions of
their operands' bit patterns: the code has to apply the *same IEEE operation to
the same operands*, which is what the contracts state.  A handful of exact
identities that LLVM uses are built into the constructors, so both sides of an
obligation are normalised alike.
"""
import z3

BV = z3.BitVecRef


def const(w, x):
    return z3.BitVecVal(x, w)


def tobv(x, w):
    return z3.BitVecVal(x, w) if isinstance(x, int) else x


EXP = {32: 8, 64: 11, 16: 5}
MAN = {32: 23, 64: 52, 16: 10}


def one(w):
    return ((1 << (EXP[w] - 1)) - 1) << MAN[w]


def inf(w):
    return ((1 << EXP[w]) - 1) << MAN[w]


def signbit(w):
    return 1 << (w - 1)


def absmask(w):
    return signbit(w) - 1


def B(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def is_nan(x, w):
    if isinstance(x, int):
        return (x & absmask(w)) > inf(w)
    return z3.UGT(x & const(w, absmask(w)), const(w, inf(w)))


def is_inf(x, w):
    if isinstance(x, int):
        return (x & absmask(w)) == inf(w)
    return (x & const(w, absmask(w))) == const(w, inf(w))


def is_zero(x, w):
    if isinstance(x, int):
        return (x & absmask(w)) == 0
    return (x & const(w, absmask(w))) == const(w, 0)


def AND(*a):
    a = [x for x in a if x is not True]
    if any(x is False for x in a):
        return False
    if not a:
        return True
    return a[0] if len(a) == 1 else z3.And(*a)


def OR(*a):
    a = [x for x in a if x is not False]
    if any(x is True for x in a):
        return True
    if not a:
        return False
    return a[0] if len(a) == 1 else z3.Or(*a)


def NOT(a):
    return (not a) if isinstance(a, bool) else z3.Not(a)


def oeq(a, b, w):
    """IEEE ==, on bits."""
    if isinstance(a, int) and isinstance(b, int):
        if is_nan(a, w) or is_nan(b, w):
            return False
        return a == b or (is_zero(a, w) and is_zero(b, w))
    eq = tobv(a, w) == tobv(b, w)
    return AND(NOT(is_nan(a, w)), NOT(is_nan(b, w)), OR(eq, AND(is_zero(a, w), is_zero(b, w))))


def key(a, w):
    """monotone map of non-NaN bits to unsigned, up to -0 < +0"""
    a = tobv(a, w)
    s = z3.Extract(w - 1, w - 1, a) == z3.BitVecVal(1, 1)
    return z3.If(s, ~a, a | const(w, signbit(w)))


def olt(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        if is_nan(a, w) or is_nan(b, w) or (is_zero(a, w) and is_zero(b, w)):
            return False

        def k(x):
            return (~x) & ((1 << w) - 1) if x >> (w - 1) else x | signbit(w)
        return k(a) < k(b)
    return AND(NOT(is_nan(a, w)), NOT(is_nan(b, w)),
               NOT(AND(is_zero(a, w), is_zero(b, w))),
               z3.ULT(key(a, w), key(b, w)))


def ole(a, b, w):
    return OR(olt(a, b, w), oeq(a, b, w))


def fcmp(pred, a, b, w):
    if pred == 'true':
        return True
    if pred == 'false':
        return False
    un = OR(is_nan(a, w), is_nan(b, w))
    if pred == 'ord':
        return NOT(un)
    if pred == 'uno':
        return un
    base = {'oeq': lambda: oeq(a, b, w), 'olt': lambda: olt(a, b, w), 'ole': lambda: ole(a, b, w),
            'ogt': lambda: olt(b, a, w), 'oge': lambda: ole(b, a, w),
            'one': lambda: OR(olt(a, b, w), olt(b, a, w))}
    if pred in base:
        return base[pred]()
    neg = {'ueq': 'one', 'ult': 'oge', 'ule': 'ogt', 'ugt': 'ole', 'uge': 'olt', 'une': 'oeq'}
    return NOT(base[neg[pred]]())


_uf = {}


def uf(name, argw, retw):
    k = (name, tuple(argw), retw)
    f = _uf.get(k)
    if f is None:
        f = z3.Function('%s' % name, *[z3.BitVecSort(x) for x in argw], z3.BitVecSort(retw))
        _uf[k] = f
    return f


def val(x):
    """int value if literal"""
    if isinstance(x, int):
        return x
    if z3.is_bv_value(x):
        return x.as_long()
    return None


def comm(a, b):
    return (a, b) if a.hash() * 4096 + a.get_id() % 4096 <= b.hash() * 4096 + b.get_id() % 4096 else (b, a)


def fneg(a, w):
    if isinstance(a, int):
        return a ^ signbit(w)
    return a ^ const(w, signbit(w))


def fabs(a, w):
    if isinstance(a, int):
        return a & absmask(w)
    return a & const(w, absmask(w))


def is_pow2(v, w):
    e = (v >> MAN[w]) & ((1 << EXP[w]) - 1)
    return (v & ((1 << MAN[w]) - 1)) == 0 and 1 < e < (1 << EXP[w]) - 2


def recip_pow2(v, w):
    bias = (1 << (EXP[w] - 1)) - 1
    e = (v >> MAN[w]) & ((1 << EXP[w]) - 1)
    return (v & signbit(w)) | ((2 * bias - e) << MAN[w])


def fbin(op, a, b, w):
    va, vb = val(a), val(b)
    if va is not None and vb is not None:
        from . import evalz
        return evalz.conc_fp(op, w, (va, vb))
    if op == 'fmul':
        for x, v in ((b, va), (a, vb)):
            if v == one(w):
                return x
            if v == one(w) | signbit(w):
                return fneg(x, w)
    if op == 'fadd':
        for x, v in ((b, va), (a, vb)):
            if v == signbit(w):
                return x
        # a + (-b)  is  a - b
    if op == 'fsub':
        if vb == 0:
            return a
        if va == signbit(w):
            return fneg(b, w)
        if vb is not None:
            return fbin('fadd', a, vb ^ signbit(w), w)
    if op == 'fdiv':
        if vb == one(w):
            return a
        if vb is not None and is_pow2(vb, w):
            return fbin('fmul', a, recip_pow2(vb, w), w)
    a, b = tobv(a, w), tobv(b, w)
    if op in ('fadd', 'fmul'):
        a, b = comm(a, b)
    return uf('%s%d' % (op, w), (w, w), w)(a, b)


def fun1(name, a, w):
    return uf('%s%d' % (name, w), (w,), w)(tobv(a, w))


def fun2(name, a, b, w):
    return uf('%s%d' % (name, w), (w, w), w)(tobv(a, w), tobv(b, w))


def fun3(name, a, b, c, w):
    a, b, c = tobv(a, w), tobv(b, w), tobv(c, w)
    if name == 'fma':
        a, b = comm(a, b)
    return uf('%s%d' % (name, w), (w, w, w), w)(a, b, c)


def fmuladd(a, b, c, w):
    """fused or not, at the compiler's discretion: an arbitrary choice function"""
    a, b, c = tobv(a, w), tobv(b, w), tobv(c, w)
    pick = uf('fmuladd_fuses%d' % w, (w, w, w), 1)(a, b, c) == z3.BitVecVal(1, 1)
    return z3.If(pick, fun3('fma', a, b, c, w), tobv(fbin('fadd', fbin('fmul', a, b, w), c, w), w))


def minmax(name, a, b, w):
    """IEEE minNum/maxNum: the non-NaN operand if exactly one is NaN; which of
    two equal operands (or which NaN) is returned is left open (a choice
    function of the operand pair)."""
    a, b = tobv(a, w), tobv(b, w)
    a, b = comm(a, b)
    if a.eq(b):
        return a
    lt = B(olt(a, b, w)) if name == 'minnum' else B(olt(b, a, w))
    gt = B(olt(b, a, w)) if name == 'minnum' else B(olt(a, b, w))
    na, nb = B(is_nan(a, w)), B(is_nan(b, w))
    pick = uf('%s_tie%d' % (name, w), (w, w), 1)(a, b) == z3.BitVecVal(1, 1)
    # if both are NaN the result is some NaN; operands returned unchanged suffices
    # because no contract constrains NaN payloads.
    return z3.If(na, b, z3.If(nb, a, z3.If(lt, a, z3.If(gt, b, z3.If(pick, a, b)))))


W = 136  # wide enough, signed, for every i128/u128 value


def ext(x, w, signed):
    if isinstance(x, int):
        if signed and x >> (w - 1):
            x -= 1 << w
        return z3.BitVecVal(x, W)
    return z3.SignExt(W - w, x) if signed else z3.ZeroExt(W - w, x)


def itofp(a, sw, signed, dw):
    """int -> float: an uninterpreted function of the exact integer value."""
    e = ext(a, sw, signed)
    return uf('itofp%d' % dw, (W,), dw)(e)


def trunc_int(a, sw):
    """float -> exact integer value truncated toward zero (saturated to W bits)."""
    return uf('ftoi%d' % sw, (sw,), W)(tobv(a, sw))


def in_range(t, dw, signed):
    lo, hi = (-(1 << (dw - 1)), (1 << (dw - 1)) - 1) if signed else (0, (1 << dw) - 1)
    return z3.And(t >= z3.BitVecVal(lo, W), t <= z3.BitVecVal(hi, W))


def fptoi_sat(a, sw, dw, signed):
    lo, hi = (-(1 << (dw - 1)), (1 << (dw - 1)) - 1) if signed else (0, (1 << dw) - 1)
    t = trunc_int(a, sw)
    c = z3.If(t < z3.BitVecVal(lo, W), z3.BitVecVal(lo, W), z3.If(t > z3.BitVecVal(hi, W), z3.BitVecVal(hi, W), t))
    return z3.If(B(is_nan(a, sw)), z3.BitVecVal(0, dw), z3.Extract(dw - 1, 0, c))


def fptoi(a, sw, dw, signed):
    """value, poison condition"""
    t = trunc_int(a, sw)
    return z3.Extract(dw - 1, 0, t), z3.Or(B(is_nan(a, sw)), z3.Not(in_range(t, dw, signed)))


def fpext(a, sw, dw):
    return uf('fpconv_%d_%d' % (sw, dw), (sw,), dw)(tobv(a, sw))


fptrunc = fpext
