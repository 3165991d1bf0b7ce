"""Verification-condition generator: symbolic execution of LLVM IR over z3
bit-vectors.

Every function is executed for arbitrary inputs satisfying its precondition, on
every feasible path.  Constant-trip loops are executed; a loop that does not
terminate within the step limit makes the function undecided (`Unsupported`),
never an alarm.

Scalars are pairs (term, poison): term is a Python int/bool when literal, else a
z3 term, or a Ptr; poison is None or a z3 Bool.
"""
import re
import heapq
import time
import z3
from . import fp
from .llir import (Unsupported, sizeof, alignof, struct_layout, I1, PTR, VOID)

AND, OR, NOT = fp.AND, fp.OR, fp.NOT


class Obj:
    n = 0

    def __init__(self, name, size, align=1, writable=True, kind='mem', base=None):
        Obj.n += 1
        self.oid = Obj.n
        self.name = name
        self.size = size
        self.align = align
        self.writable = writable
        self.kind = kind
        if base is None:
            nz = max(align, 1).bit_length() - 1
            nm = 'addr!%s!%d' % (name, self.oid)
            base = z3.Concat(z3.BitVec(nm, 64 - nz), z3.BitVecVal(0, nz)) if nz else z3.BitVec(nm, 64)
        self.base = base
        self.extra = {}


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=0):
        self.obj = obj
        self.off = off

    def term(self):
        if isinstance(self.off, int):
            if self.off == 0:
                return self.obj.base
            return self.obj.base + z3.BitVecVal(self.off, 64)
        return self.obj.base + self.off

    def __repr__(self):
        return '&%s+%s' % (self.obj.name, self.off)


def mask(w):
    return (1 << w) - 1


def sx(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def bv(t, w):
    if isinstance(t, bool):
        t = int(t)
    if isinstance(t, int):
        return z3.BitVecVal(t, w)
    if isinstance(t, Ptr):
        return t.term()
    if z3.is_bool(t):
        return z3.If(t, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return t


def zb(t):
    return z3.BoolVal(t) if isinstance(t, bool) else t


def por(*ps):
    ps = [p for p in ps if p is not None and p is not False]
    if not ps:
        return None
    if any(p is True for p in ps):
        return True
    if len(ps) == 1:
        return ps[0]
    if all(p.eq(ps[0]) for p in ps):
        return ps[0]
    return z3.Or(*ps)


def pite(c, a, b):
    """poison of select"""
    if a is None and b is None:
        return None
    a = False if a is None else a
    b = False if b is None else b
    if isinstance(c, bool):
        r = a if c else b
    elif isinstance(a, bool) and isinstance(b, bool) and a == b:
        r = a
    else:
        r = z3.If(c, zb(a), zb(b))
    return None if r is False else r


POISON = (None, True)

BVOPS = {
    'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b,
    'udiv': z3.UDiv, 'sdiv': lambda a, b: a / b, 'urem': z3.URem, 'srem': z3.SRem,
    'shl': lambda a, b: a << b, 'lshr': z3.LShR, 'ashr': lambda a, b: a >> b,
    'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b}


def cop(op, w, a, b):
    """literal fold; returns int or None"""
    m = mask(w)
    if op == 'add':
        return (a + b) & m
    if op == 'sub':
        return (a - b) & m
    if op == 'mul':
        return (a * b) & m
    if op == 'and':
        return a & b
    if op == 'or':
        return a | b
    if op == 'xor':
        return a ^ b
    if op in ('shl', 'lshr', 'ashr'):
        if b >= w:
            return 0
        if op == 'shl':
            return (a << b) & m
        if op == 'lshr':
            return a >> b
        return (sx(a, w) >> b) & m
    if b == 0:
        return 0
    if op == 'udiv':
        return a // b
    if op == 'urem':
        return a % b
    x, y = sx(a, w), sx(b, w)
    q = abs(x) // abs(y)
    if (x < 0) != (y < 0):
        q = -q
    if op == 'sdiv':
        return q & m
    return (x - q * y) & m


def icmp_t(pred, w, a, b):
    if isinstance(a, int) and isinstance(b, int):
        if pred == 'eq':
            return a == b
        if pred == 'ne':
            return a != b
        if pred[0] == 's':
            a, b = sx(a, w), sx(b, w)
        return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred[1:]]
    a, b = bv(a, w), bv(b, w)
    return {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
            'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b,
            'sgt': lambda: a > b, 'sge': lambda: a >= b}[pred]()


def ite(c, a, b, w):
    """w: bit width, 1 for i1 (Bool), 'p' for pointers"""
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if w == 'p':
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
            if isinstance(a.off, int) and isinstance(b.off, int) and a.off == b.off:
                return a
            return Ptr(a.obj, z3.If(c, bv(a.off, 64), bv(b.off, 64)))
        return z3.If(c, bv(a, 64), bv(b, 64))
    if w == 1:
        if a is True and b is False:
            return c
        if a is False and b is True:
            return z3.Not(c)
        if isinstance(a, bool) and isinstance(b, bool):
            return a
        if a is True:
            return z3.Or(c, b)
        if a is False:
            return z3.And(z3.Not(c), b)
        if b is True:
            return z3.Or(z3.Not(c), a)
        if b is False:
            return z3.And(c, a)
        return z3.If(c, a, b)
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    return z3.If(c, bv(a, w), bv(b, w))


def wid(t):
    if t[0] == 'p':
        return 'p'
    return t[1]


def bitw(t):
    return 64 if t[0] == 'p' else t[1]


class Frame:
    __slots__ = ('fn', 'bb', 'i', 'env', 'prev', 'ret', 'normal', 'iters', 'got')

    def __init__(self, fn, ret, normal):
        self.fn = fn
        self.bb = fn.entry
        self.i = 0
        self.env = {}
        self.prev = None
        self.ret = ret
        self.normal = normal
        self.iters = {}
        self.got = None

    def copy(self):
        f = Frame.__new__(Frame)
        f.iters = dict(self.iters)
        f.got = self.got
        f.fn, f.bb, f.i, f.prev, f.ret, f.normal = self.fn, self.bb, self.i, self.prev, self.ret, self.normal
        f.env = dict(self.env)
        return f


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.heap = None
        self.pc = []
        self.steps = 0
        self.trace = []
        self.outcome = None
        self.retval = None
        self.user = {}

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = {k: dict(v) for k, v in self.mem.items()}
        s.heap = self.heap
        s.pc = list(self.pc)
        s.steps = self.steps
        s.trace = list(self.trace)
        s.user = dict(self.user)
        return s


PANIC_RE = re.compile(r'panick|panic|unwrap_failed|expect_failed|slice_\w*fail|slice_error_fail|len_mismatch_fail|copy_from_slice')
INT_RE = re.compile(r'^@llvm\.([a-z0-9._]+)$')


_syms = {}


def symbols(t):
    """the uninterpreted symbols of a term (by declaration)"""
    r = _syms.get(t.get_id())
    if r is not None:
        return r[0]
    seen = set()
    out = set()
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        sub = _syms.get(i)
        if sub is not None:
            out |= sub[0]
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().get_id())
            st.extend(x.children())
        elif z3.is_quantifier(x):
            st.append(x.body())
    r = frozenset(out)
    _syms[t.get_id()] = (r, t)
    return r


class Exec:
    def __init__(self, mods, requires, externs=None, max_paths=3000, max_steps=400000, deadline=None, heap_perm=None,
                 opaque=None, merge=False):
        self.merge = merge
        self.mods = mods
        self.requires = requires
        self.externs = externs or []
        self.max_paths = max_paths
        self.max_steps = max_steps
        self.deadline = deadline
        self.heap_perm = heap_perm
        self.opaque = opaque
        self.oblig = []      # (pc tuple, cond, label)
        self.final = []
        self.fresh_n = 0
        self.gobj = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', 20000)
        self.stack = []
        self.alone = True
        self.axioms = []
        self.nq = 0
        self.instr = 0

    # ------------------------------------------------------------ utilities
    def fresh(self, w, name='frz'):
        self.fresh_n += 1
        if w == 1:
            return z3.Bool('%s!%d' % (name, self.fresh_n))
        return z3.BitVec('%s!%d' % (name, self.fresh_n), w)

    def must(self, st, cond, label):
        if cond is True:
            return
        if not isinstance(cond, bool):
            cond = z3.simplify(cond)
            if z3.is_true(cond):
                return
        self.oblig.append((tuple(st.pc), zb(cond), label))

    def feasible(self, st, extra):
        """is extra consistent with the path condition (which is itself consistent)?  Only the
        conjuncts connected with extra by shared symbols can contradict it."""
        self.nq += 1
        extra = zb(extra)
        seen = set(symbols(extra))
        rest = list(enumerate(list(self.requires) + list(st.pc)))
        rel = []
        while True:
            left = []
            n = len(rel)
            for c in rest:
                v = symbols(c[1])
                if v & seen:
                    rel.append(c)
                    seen |= v
                else:
                    left.append(c)
            rest = left
            if len(rel) == n:
                break
        rel = [c for _, c in sorted(rel, key=lambda x: x[0])]
        # the solver's stack keeps the conjuncts shared with the query before
        s = self.solver
        k = 0
        while k < len(rel) and k < len(self.stack) and rel[k].eq(self.stack[k]):
            k += 1
        if k < len(self.stack):
            s.pop(len(self.stack) - k)
        for c in rel[k:]:
            s.push()
            s.add(c)
        self.stack = rel
        s.push()
        s.add(extra)
        r = s.check()
        s.pop()
        return r != z3.unsat

    def find(self, name):
        for m in self.mods:
            n = name
            while n in m.aliases:
                n = m.aliases[n]
            if n in m.funcs:
                return m.funcs[n]
        return None

    # ------------------------------------------------------------ globals
    def global_ptr(self, st, name, mod):
        for m in [mod] + self.mods:
            if name in m.aliases:
                return self.global_ptr(st, m.aliases[name], m)
            if name in m.globals:
                key = (id(m), name)
                o = self.gobj.get(key)
                if o is None:
                    g = m.global_def(name)
                    o = Obj(name, sizeof(g[0], m), g[3], writable=not g[2], kind='global')
                    o.extra['def'] = (g, m)
                    self.gobj[key] = o
                if o.oid not in st.mem:
                    st.mem[o.oid] = {}
                    g, gm = o.extra['def']
                    if g[1] is None:
                        raise Unsupported('external global ' + name)
                    self.store_val(st, Ptr(o, 0), g[0], self.const(st, g[0], g[1], gm), gm, check=False)
                return Ptr(o, 0)
        key = ('fn', name)
        o = self.gobj.get(key)
        if o is None:
            o = Obj(name, 0, 1, False, kind='func')
            o.extra['mod'] = mod
            self.gobj[key] = o
        return Ptr(o, 0)

    # ------------------------------------------------------------ constants
    def const(self, st, t, v, mod):
        k = v[0]
        if t[0] in ('a', 's'):
            if k == 'zero':
                if t[0] == 'a':
                    return [self.const(st, t[2], ('zero',), mod) for _ in range(t[1])]
                return [self.const(st, x, ('zero',), mod) for x in t[1]]
            if k == 'poison':
                if t[0] == 'a':
                    return [self.const(st, t[2], ('poison',), mod) for _ in range(t[1])]
                return [self.const(st, x, ('poison',), mod) for x in t[1]]
            if k == 'agg':
                return [self.const(st, et, ev, mod) for et, ev in v[1]]
            if k == 'str':
                return [(b, None) for b in v[1]]
            raise Unsupported('const agg %r' % (v,))
        if t[0] == 'v':
            if k == 'zero':
                return [self.const(st, t[2], ('zero',), mod)] * t[1]
            if k == 'poison':
                return [POISON] * t[1]
            if k == 'agg':
                return [self.const(st, et, ev, mod) for et, ev in v[1]]
            if k == 'str':
                return [(b, None) for b in v[1]]
            raise Unsupported('const vec %r' % (v,))
        if k == 'c':
            if t == I1:
                return (bool(v[1]), None)
            return (v[1], None)
        if k == 'zero':
            return (False if t == I1 else 0, None)
        if k == 'null':
            return (0, None)
        if k == 'poison':
            return POISON
        if k == 'g':
            return (self.global_ptr(st, v[1], mod), None)
        if k == 'gep':
            ops = [(ot, self.const(st, ot, ov, mod)) for ot, ov in v[2]]
            return self.gep(st, v[1], ops, mod)
        if k == 'cast':
            x = self.const(st, v[2], v[3], mod)
            return self.cast1(v[1], v[2], x, v[4])
        if k == 'binc':
            a = self.const(st, v[2], v[3], mod)
            b = self.const(st, v[2], v[4], mod)
            return self.bin1(st, v[1], v[2], a, b, [])
        raise Unsupported('const %r %r' % (t, v))

    def val(self, st, fr, t, v):
        if v[0] == 'l':
            try:
                x = fr.env[v[1]]
            except KeyError:
                raise Unsupported('undefined ' + v[1])
            if type(x) is Either:
                try:
                    x = fr.env[v[1]] = x.value(self, t)
                except NoMerge:
                    raise Unsupported('undefined ' + v[1])
            return x
        return self.const(st, t, v, fr.fn.mod)

    # ------------------------------------------------------------ scalar ops
    def bin1(self, st, op, t, a, b, fl):
        w = t[1]
        p = por(a[1], b[1])
        if p is True:
            if op in ('udiv', 'sdiv', 'urem', 'srem') and b[1] is True:
                self.must(st, False, 'no division by poison')
            return POISON
        x, y = a[0], b[0]
        if isinstance(x, Ptr):
            x = x.term()
        if isinstance(y, Ptr):
            y = y.term()
        if w == 1:
            if op in ('and', 'mul'):
                r = AND(x, y)
            elif op == 'or':
                r = OR(x, y)
            elif op in ('xor', 'add', 'sub'):
                if isinstance(x, bool) and isinstance(y, bool):
                    r = x != y
                elif isinstance(y, bool):
                    r = NOT(x) if y else x
                elif isinstance(x, bool):
                    r = NOT(y) if x else y
                else:
                    r = z3.Xor(x, y)
            else:
                raise Unsupported('i1 ' + op)
            return (r, p)
        lit = isinstance(x, int) and isinstance(y, int)
        if op in ('shl', 'lshr', 'ashr'):
            if isinstance(y, int):
                if y >= w:
                    return POISON
            else:
                p = por(p, z3.UGE(y, z3.BitVecVal(w, w)))
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            if isinstance(y, int):
                if y == 0:
                    self.must(st, False, 'no division by zero')
                    return POISON
            else:
                c = y != 0
                if b[1] is not None:
                    c = z3.And(c, z3.Not(b[1]))
                self.must(st, c, 'no division by zero')
            if op in ('sdiv', 'srem') and (not isinstance(y, int) or y == mask(w)) and (not isinstance(x, int) or x == 1 << (w - 1)):
                self.must(st, z3.Not(z3.And(bv(x, w) == z3.BitVecVal(1 << (w - 1), w), bv(y, w) == z3.BitVecVal(mask(w), w))),
                          'no signed division overflow')
        if lit:
            r = cop(op, w, x, y)
        else:
            r = None
            if isinstance(y, int):
                if y == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                    r = x
                elif y == mask(w) and op == 'and':
                    r = x
                elif y == 0 and op in ('and', 'mul'):
                    r = 0
                elif y == 1 and op in ('mul', 'udiv', 'sdiv'):
                    r = x
            elif isinstance(x, int):
                if x == 0 and op in ('add', 'or', 'xor'):
                    r = y
                elif x == 0 and op in ('and', 'mul'):
                    r = 0
            if r is None:
                r = BVOPS[op](bv(x, w), bv(y, w))
        for f in fl:
            if f == 'exact':
                if op in ('lshr', 'ashr'):
                    back = (cop('shl', w, r, y) != x) if lit else (bv(r, w) << bv(y, w)) != bv(x, w)
                else:
                    rem = 'urem' if op == 'udiv' else 'srem'
                    back = (cop(rem, w, x, y) != 0) if lit else BVOPS[rem](bv(x, w), bv(y, w)) != 0
                p = por(p, back)
            elif f in ('nuw', 'nsw'):
                o = self.ovf(op, w, x, y, f == 'nsw', lit)
                p = por(p, o)
            elif f == 'disjoint':
                p = por(p, ((x & y) != 0) if lit else (bv(x, w) & bv(y, w)) != 0)
        return (r, p)

    def ovf(self, op, w, x, y, signed, lit):
        if lit:
            a, b = (sx(x, w), sx(y, w)) if signed else (x, y)
            if op == 'add':
                r = a + b
            elif op == 'sub':
                r = a - b
            elif op == 'mul':
                r = a * b
            elif op == 'shl':
                r = a << y if y < w else 0
            else:
                return None
            return (not (-(1 << (w - 1)) <= r < (1 << (w - 1)))) if signed else (not (0 <= r <= mask(w)))
        a, b = bv(x, w), bv(y, w)
        if op == 'add':
            if signed:
                c = z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b))
            else:
                c = z3.BVAddNoOverflow(a, b, False)
        elif op == 'sub':
            if signed:
                c = z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True))
            else:
                c = z3.BVSubNoUnderflow(a, b, False)
        elif op == 'mul':
            if signed:
                c = z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b))
            else:
                c = z3.BVMulNoOverflow(a, b, False)
        elif op == 'shl':
            r = a << b
            back = (r >> b) if signed else z3.LShR(r, b)
            c = back == a
        else:
            raise Unsupported('flag on ' + op)
        return z3.Not(c)

    def cast1(self, op, t, a, t2):
        x, p = a
        if p is True:
            return POISON
        if op in ('bitcast', 'inttoptr'):
            return (x, p)
        if op == 'ptrtoint':
            if isinstance(x, Ptr):
                x = x.term()
            if t2[1] != 64:
                x = z3.Extract(t2[1] - 1, 0, bv(x, 64)) if t2[1] < 64 else z3.ZeroExt(t2[1] - 64, bv(x, 64))
            return (x, p)
        if op in ('fptrunc', 'fpext'):
            return (fp.fpext(x, t[1], t2[1]), p)
        w, w2 = t[1], t2[1]
        if op == 'trunc':
            if isinstance(x, int):
                return (bool(x & 1) if w2 == 1 else x & mask(w2), p)
            if isinstance(x, Ptr):
                x = x.term()
            if w2 == 1:
                return (z3.Extract(0, 0, x) == z3.BitVecVal(1, 1), p)
            return (z3.Extract(w2 - 1, 0, x), p)
        if op in ('zext', 'sext'):
            if w == 1:
                if isinstance(x, bool):
                    return ((mask(w2) if op == 'sext' else 1) if x else 0, p)
                return (z3.If(x, z3.BitVecVal(mask(w2) if op == 'sext' else 1, w2), z3.BitVecVal(0, w2)), p)
            if isinstance(x, int):
                return ((sx(x, w) & mask(w2)) if op == 'sext' else x, p)
            if isinstance(x, Ptr):
                x = x.term()
            return (z3.SignExt(w2 - w, x) if op == 'sext' else z3.ZeroExt(w2 - w, x), p)
        if op in ('sitofp', 'uitofp'):
            if w == 1:
                x = bv(x, 1)
            return (fp.itofp(x, w, op == 'sitofp', w2), p)
        if op in ('fptosi', 'fptoui'):
            r, q = fp.fptoi(x, w, w2, op == 'fptosi')
            return (r, por(p, q))
        raise Unsupported('cast ' + op)

    def bitcast(self, t, v, t2):
        """reinterpret between vectors / scalars of the same total width"""
        if t == t2:
            return v

        def lanes(t):
            return (t[1], t[2]) if t[0] == 'v' else (1, t)
        n1, e1 = lanes(t)
        n2, e2 = lanes(t2)
        src = v if t[0] == 'v' else [v]
        if n1 == n2:
            r = src
            if e1 == I1 or e2 == I1:
                if e1 != e2:
                    r = [self.bitcast1bit(s, e1, e2) for s in src]
            return r if t2[0] == 'v' else r[0]
        w1, w2 = bitw(e1), bitw(e2)
        out = []
        if w1 > w2:
            k = w1 // w2
            for (x, p) in src:
                for i in range(k):
                    if p is True:
                        out.append(POISON)
                    elif isinstance(x, int) and not isinstance(x, bool):
                        c = (x >> (i * w2)) & mask(w2)
                        out.append((bool(c) if w2 == 1 else c, p))
                    else:
                        ex = z3.Extract(i * w2 + w2 - 1, i * w2, bv(x, w1))
                        out.append((ex == z3.BitVecVal(1, 1) if w2 == 1 else ex, p))
        else:
            k = w2 // w1
            for i in range(n2):
                part = src[i * k:(i + 1) * k]
                p = por(*[q for _, q in part])
                if p is True:
                    out.append(POISON)
                    continue
                out.append((concat([x for x, _ in part], w1), p))
        return out if t2[0] == 'v' else out[0]

    def bitcast1bit(self, s, e1, e2):
        raise Unsupported('bitcast i1')

    # ------------------------------------------------------------ memory
    def gep(self, st, bt, ops, mod):
        (t0, base) = ops[0]
        # vector gep handled by caller
        x, p = base
        if p is True:
            return POISON
        off = 0
        cur = bt
        first = True
        for (it, iv) in ops[1:]:
            ix, ip = iv
            p = por(p, ip)
            if p is True:
                return POISON
            if first:
                sz = sizeof(cur, mod)
                first = False
                off = self.addoff(off, ix, it, sz)
                continue
            if cur[0] == 's':
                _, offs = struct_layout(cur, mod)
                off = self.addoff(off, offs[ix], ('i', 64), 1)
                cur = cur[1][ix]
            elif cur[0] in ('a', 'v'):
                cur = cur[2]
                off = self.addoff(off, ix, it, sizeof(cur, mod))
            else:
                raise Unsupported('gep into %r' % (cur,))
        if isinstance(x, Ptr):
            if isinstance(x.off, int) and isinstance(off, int):
                return (Ptr(x.obj, x.off + off), p)
            if isinstance(off, int) and off == 0:
                return (x, p)
            return (Ptr(x.obj, bv(x.off & mask(64) if isinstance(x.off, int) else x.off, 64) + bv(off & mask(64) if isinstance(off, int) else off, 64)), p)
        if isinstance(off, int):
            if isinstance(x, int):
                return ((x + off) & mask(64), p)
            if off == 0:
                return (x, p)
            return (x + z3.BitVecVal(off, 64), p)
        return (bv(x, 64) + off, p)

    def addoff(self, off, ix, it, sz):
        if isinstance(ix, bool):
            ix = int(ix)
        w = it[1]
        if isinstance(ix, int):
            ix = sx(ix, w)
            if isinstance(off, int):
                return off + ix * sz
            return off + z3.BitVecVal(ix * sz, 64)
        if isinstance(ix, Ptr):
            ix = ix.term()
        if w < 64:
            ix = z3.SignExt(64 - w, ix)
        elif w > 64:
            ix = z3.Extract(63, 0, ix)
        s = z3.simplify(ix * z3.BitVecVal(sz, 64)) if sz != 1 else z3.simplify(ix)
        if z3.is_bv_value(s):
            return self.addoff(off, s.as_long(), ('i', 64), 1)
        if isinstance(off, int):
            return s if off == 0 else s + z3.BitVecVal(off, 64)
        return off + s

    def check_access(self, st, ptr, n, align, write):
        o = ptr.obj
        what = 'store' if write else 'load'
        if o.kind == 'func':
            raise Unsupported('access to function')
        if write and not o.writable:
            self.must(st, False, 'frame: %s is not written' % o.name)
        size = o.size
        if isinstance(ptr.off, int) and isinstance(size, int):
            if ptr.off < 0 or ptr.off + n > size:
                self.must(st, False, '%s of %d bytes in bounds of %s' % (what, n, o.name))
                return False
        else:
            off = bv(ptr.off & mask(64) if isinstance(ptr.off, int) else ptr.off, 64)
            s = bv(size, 64)
            self.must(st, z3.And(z3.ULE(off, s), z3.ULE(z3.BitVecVal(n, 64), s - off)),
                      '%s of %d bytes in bounds of %s' % (what, n, o.name))
        if align > 1 and not (isinstance(ptr.off, int) and o.align % align == 0 and ptr.off % align == 0):
            at = ptr.term()
            if o.align % align == 0 and not isinstance(ptr.off, int):
                at = ptr.off      # the object itself is sufficiently aligned
            self.must(st, (at & z3.BitVecVal(align - 1, 64)) == 0, '%s from %s aligned to %d' % (what, o.name, align))
        return True

    def scalar_parts(self, t, mod):
        """list of (offset, scalar type) for a first-class type"""
        if t[0] in ('i', 'f', 'p'):
            return [(0, t)]
        if t[0] == 'v':
            e = t[2]
            if e == I1:
                raise Unsupported('i1 vector in memory')
            n = bitw(e) // 8
            return [(i * n, e) for i in range(t[1])]
        if t[0] == 'a':
            n = sizeof(t[2], mod)
            sub = self.scalar_parts(t[2], mod)
            return [(i * n + o, e) for i in range(t[1]) for o, e in sub]
        if t[0] == 's':
            _, offs = struct_layout(t, mod)
            return [(o + oo, e) for o, x in zip(offs, t[1]) for oo, e in self.scalar_parts(x, mod)]
        raise Unsupported('mem type %r' % (t,))

    def flatten(self, t, v):
        if t[0] in ('i', 'f', 'p'):
            return [v]
        if t[0] == 'v':
            return list(v)
        if t[0] == 'a':
            return [y for x in v for y in self.flatten(t[2], x)]
        if t[0] == 's':
            return [y for tt, x in zip(t[1], v) for y in self.flatten(tt, x)]
        raise Unsupported('flatten')

    def unflatten(self, t, it):
        if t[0] in ('i', 'f', 'p'):
            return next(it)
        if t[0] == 'v':
            return [next(it) for _ in range(t[1])]
        if t[0] == 'a':
            return [self.unflatten(t[2], it) for _ in range(t[1])]
        if t[0] == 's':
            return [self.unflatten(x, it) for x in t[1]]

    def nbytes(self, t):
        return 8 if t[0] == 'p' else (t[1] + 7) // 8

    def store_sc(self, st, obj, off, t, v):
        n = self.nbytes(t)
        x, p = v
        if t == I1:
            v = (int(x) if isinstance(x, bool) else (z3.If(x, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)) if x is not None else None), p)
        elif t[0] == 'i' and t[1] % 8:
            v = (x if isinstance(x, int) or x is None else z3.ZeroExt(n * 8 - t[1], x), p)
        cells = st.mem[obj.oid]
        for i in range(n):
            cells[off + i] = (v, i, n)

    def load_sc(self, st, obj, off, t):
        n = self.nbytes(t)
        cells = st.mem[obj.oid]
        cs = [cells.get(off + i) for i in range(n)]
        c0 = cs[0]
        if any(c is None for c in cs):
            return POISON
        v = None
        if c0[2] == n and c0[1] == 0 and all(c[0] is c0[0] and c[1] == i for i, c in enumerate(cs)):
            v = c0[0]
            if v[1] is True:
                return POISON
        else:
            p = por(*[c[0][1] for c in cs])
            if p is True:
                return POISON
            # group into runs of the same value
            if all(isinstance(c[0][0], int) for c in cs):
                x = 0
                for i, c in enumerate(cs):
                    x |= ((c[0][0] >> (8 * c[1])) & 255) << (8 * i)
                v = (x, p)
            else:
                runs = []
                i = 0
                while i < n:
                    c = cs[i]
                    j = i + 1
                    while j < n and cs[j][0] is c[0] and cs[j][1] == c[1] + (j - i):
                        j += 1
                    full = bv(c[0][0], c[2] * 8)
                    lo = c[1] * 8
                    hi = (c[1] + j - i) * 8 - 1
                    runs.append(full if (lo == 0 and hi == c[2] * 8 - 1) else z3.Extract(hi, lo, full))
                    i = j
                v = (runs[0] if len(runs) == 1 else z3.Concat(*reversed(runs)), p)
        x, p = v
        if t == I1:
            x = bool(x & 1) if isinstance(x, int) else z3.Extract(0, 0, x) == z3.BitVecVal(1, 1)
        elif t[0] == 'i' and t[1] % 8:
            x = x & mask(t[1]) if isinstance(x, int) else z3.Extract(t[1] - 1, 0, x)
        elif t[0] == 'i' and isinstance(x, Ptr):
            x = x.term()
        return (x, p)

    def stride_candidates(self, ptr, n, align):
        size = ptr.obj.size
        if not isinstance(size, int):
            raise Unsupported('symbolic offset into object of symbolic size')
        step = 1
        for s in (n, align):
            # offset provably a multiple of s?
            if s > 1:
                c = z3.simplify(z3.URem(ptr.off, z3.BitVecVal(s, 64))) if s & (s - 1) else z3.simplify(z3.Extract(s.bit_length() - 2, 0, ptr.off))
                if z3.is_bv_value(c) and c.as_long() == 0:
                    step = max(step, s)
        cand = list(range(0, size - n + 1, step))
        if len(cand) > 300:
            raise Unsupported('symbolic offset, %d candidates' % len(cand))
        return cand

    def load(self, st, a, t, align, mod):
        if t[0] == 'v' and t[2] == I1 and t[1] > 1:
            w = self.load(st, a, ('i', t[1]), align, mod)
            if w[1] is True:
                return [POISON] * t[1]
            y = w[0]
            return [((bool((y >> i) & 1) if isinstance(y, int) else z3.Extract(i, i, y) == z3.BitVecVal(1, 1)), w[1]) for i in range(t[1])]
        x, p = a
        if p is not None:
            self.must(st, False if p is True else z3.Not(p), 'load address is not poison')
            if p is True:
                return self.poison_of(t)
        parts = self.scalar_parts(t, mod)
        n = parts[-1][0] + self.nbytes(parts[-1][1]) if parts else 0
        if n == 0:
            return self.unflatten(t, iter([]))
        if not isinstance(x, Ptr):
            return self.heap_load(st, x, t, align, mod)
        if x.obj.kind == 'heap':
            return self.heap_load(st, x.term(), t, align, mod)
        if not self.check_access(st, x, n, align, False):
            return self.poison_of(t)
        if isinstance(x.off, int):
            vals = [self.load_sc(st, x.obj, x.off + o, e) for o, e in parts]
        else:
            cand = self.stride_candidates(x, n, align)
            vals = []
            for o, e in parts:
                r = None
                for c in reversed(cand):
                    v = self.load_sc(st, x.obj, c + o, e)
                    if r is None:
                        r = v
                    else:
                        cc = x.off == z3.BitVecVal(c, 64)
                        r = self.sel1(cc, v, r, e)
                vals.append(r if r is not None else POISON)
        return self.unflatten(t, iter(vals))

    def sel1(self, c, a, b, e):
        if a[1] is True and b[1] is True:
            return POISON
        if a[1] is True:
            return (b[0], pite(c, True, b[1]))
        if b[1] is True:
            return (a[0], pite(c, a[1], True))
        return (ite(c, a[0], b[0], wid(e)), pite(c, a[1], b[1]))

    def poison_of(self, t):
        if t[0] == 'v':
            return [POISON] * t[1]
        if t[0] == 'a':
            return [self.poison_of(t[2]) for _ in range(t[1])]
        if t[0] == 's':
            return [self.poison_of(x) for x in t[1]]
        return POISON

    def store(self, st, a, t, v, align, mod):
        x, p = a
        if t[0] == 'v' and t[2] == I1:
            q = por(*[y[1] for y in v])
            n = t[1]
            v = POISON if q is True else (concat([y[0] if isinstance(y[0], int) and not isinstance(y[0], bool) else bv(y[0], 1) for y in v], 1), q)
            t = ('i', n)
            if n == 1:
                raise Unsupported('i1 vector in memory')
        if p is not None:
            self.must(st, False if p is True else z3.Not(p), 'store address is not poison')
            if p is True:
                return
        if not isinstance(x, Ptr):
            return self.heap_store(st, x, t, v, align, mod)
        if x.obj.kind == 'heap':
            return self.heap_store(st, x.term(), t, v, align, mod)
        self.store_val(st, x, t, v, mod, True, align)

    def store_val(self, st, x, t, v, mod, check=True, align=1):
        parts = self.scalar_parts(t, mod)
        if not parts:
            return
        n = parts[-1][0] + self.nbytes(parts[-1][1])
        if check and not self.check_access(st, x, n, align, True):
            return
        vals = self.flatten(t, v)
        if isinstance(x.off, int):
            for (o, e), s in zip(parts, vals):
                self.store_sc(st, x.obj, x.off + o, e, s)
            return
        cand = self.stride_candidates(x, n, align)
        for c in cand:
            cc = x.off == z3.BitVecVal(c, 64)
            for (o, e), s in zip(parts, vals):
                old = self.load_sc(st, x.obj, c + o, e)
                self.store_sc(st, x.obj, c + o, e, self.sel1(cc, s, old, e))

    def heap_load(self, st, addr, t, align, mod, guard=True):
        if st.heap is None:
            raise Unsupported('load through raw address')
        parts = self.scalar_parts(t, mod)
        addr = bv(addr, 64)
        n = parts[-1][0] + self.nbytes(parts[-1][1])
        ok = self.heap_perm(addr, n, align, False)
        self.must(st, ok if guard is True else z3.Implies(guard, ok), 'only addresses of enabled lanes are read')
        vals = []
        for o, e in parts:
            k = self.nbytes(e)
            bs = [z3.Select(st.heap, addr + z3.BitVecVal(o + i, 64)) for i in range(k)]
            r = bs[0] if k == 1 else z3.Concat(*reversed(bs))
            if e == I1:
                raise Unsupported('i1 heap')
            vals.append((r, None))
        return self.unflatten(t, iter(vals))

    def heap_store(self, st, addr, t, v, align, mod, guard=True):
        if st.heap is None:
            raise Unsupported('store through raw address')
        parts = self.scalar_parts(t, mod)
        vals = self.flatten(t, v)
        addr = bv(addr, 64)
        n = parts[-1][0] + self.nbytes(parts[-1][1])
        ok = self.heap_perm(addr, n, align, True)
        self.must(st, ok if guard is True else z3.Implies(guard, ok), 'only addresses of enabled lanes are written')
        h = st.heap
        for (o, e), (x, p) in zip(parts, vals):
            if p is not None:
                g = True if guard is True else guard
                self.must(st, False if (p is True and g is True) else z3.Implies(zb(g), z3.Not(zb(p))), 'no poison is written')
                if p is True:
                    continue
            k = self.nbytes(e)
            xb = bv(x, 8 * k)
            for i in range(k):
                h = z3.Store(h, addr + z3.BitVecVal(o + i, 64), z3.Extract(8 * i + 7, 8 * i, xb) if k > 1 else xb)
        st.heap = h if guard is True else z3.If(guard, h, st.heap)

    # ------------------------------------------------------------ running
    def run(self, fn, args, st):
        fn.parse()
        fr = Frame(fn, None, None)
        for (t, name), v in zip(fn.params, args):
            fr.env[name] = v
        st.frames.append(fr)
        self.explore(st)
        return self.final

    def explore(self, st):
        """run st on all paths to the end (self.final).  The state that is furthest
        behind goes first, so that states that come to the same place (the same calls,
        block and loop iterations) meet there and become one."""
        if not self.merge:
            work = [st]
            while work:
                work.extend(self.run_path(work.pop()))
                if len(self.final) + len(work) > self.max_paths:
                    raise Unsupported('more than %d paths' % self.max_paths)
            return
        heap = []
        n = 0

        def push(s):
            nonlocal n
            heapq.heappush(heap, (place(s), n, s))
            n += 1
        push(st)
        while heap:
            k, _, s = heapq.heappop(heap)
            group = [s]
            while heap and heap[0][0] == k:
                group.append(heapq.heappop(heap)[2])
            if len(group) > 1:
                group = self.join(group)
            for j, s in enumerate(group):
                self.alone = not heap and j == len(group) - 1
                for o in self.run_path(s):
                    push(o)
            if len(self.final) + len(heap) > self.max_paths:
                raise Unsupported('more than %d paths' % self.max_paths)

    def join(self, group):
        """merge the states of a group, those with the longest common history first"""
        group.sort(key=lambda s: -len(s.pc))
        out = []
        for s in group:
            while out:
                m = merge_states(self, s, out[-1])
                if m is None:
                    break
                out.pop()
                s = m
            out.append(s)
        return out

    def finish(self, st, outcome, retval=None):
        st.outcome = outcome
        st.retval = retval
        self.final.append(st)

    def goto(self, st, fr, lab):
        fr.prev = fr.bb
        fr.bb = lab
        fr.i = 0
        if self.merge:
            w = fr.fn.wto()
            was = {h for _, h in w[fr.prev]}
            for _, h in w[lab]:
                if h is not None:
                    fr.iters[h] = fr.iters.get(h, 0) + (h == lab) if h in was else 0
        code = fr.fn.block(lab)
        new = {}
        k = 0
        for ins in code:
            if ins[0] != 'phi':
                break
            k += 1
            v = ins[3].get(fr.prev)
            if v is None:
                raise Unsupported('phi without edge')
            new[ins[1]] = self.val(st, fr, ins[2], v)
        fr.env.update(new)
        fr.i = k

    def run_path(self, st):
        """run st up to its end, to a fork or, while other states are under way, to a
        place where it can meet one; what is left to run is returned"""
        while True:
            fr = st.frames[-1]
            code = fr.fn.block(fr.bb)
            if fr.i >= len(code):
                raise Unsupported('fell off block')
            ins = code[fr.i]
            fr.i += 1
            st.steps += 1
            self.instr += 1
            if st.steps > self.max_steps:
                raise Unsupported('step limit')
            if self.deadline and (st.steps & 255) == 0 and time.time() > self.deadline:
                raise Unsupported('time limit')
            op = ins[0]
            if op == 'br':
                self.goto(st, fr, ins[2])
                if self.merge and not self.alone and ins[2] in fr.fn.joins():
                    return [st]
                continue
            if op == 'cbr':
                c, p = self.val(st, fr, I1, ins[2])
                if p is not None:
                    self.must(st, False if p is True else z3.Not(p), 'no branch on poison')
                    if p is True:
                        return []
                if not isinstance(c, bool):
                    c = z3.simplify(c)
                    if z3.is_true(c):
                        c = True
                    elif z3.is_false(c):
                        c = False
                if isinstance(c, bool):
                    lab = ins[3] if c else ins[4]
                    self.goto(st, fr, lab)
                    if self.merge and not self.alone and lab in fr.fn.joins():
                        return [st]
                    continue
                ft = self.feasible(st, c)
                ff = self.feasible(st, z3.Not(c)) if ft else True
                if ft and ff:
                    if self.deadline and time.time() > self.deadline:
                        raise Unsupported('time limit')
                    o = st.copy()
                    o.pc.append(z3.Not(c))
                    self.goto(o, o.frames[-1], ins[4])
                    st.pc.append(c)
                    self.goto(st, fr, ins[3])
                    return [o, st]
                lab = ins[3] if ft else ins[4]
                self.goto(st, fr, lab)
                if self.merge and not self.alone and lab in fr.fn.joins():
                    return [st]
                continue
            if op == 'switch':
                t, v, d, cases = ins[2:]
                x, p = self.val(st, fr, t, v)
                if p is not None:
                    self.must(st, False if p is True else z3.Not(p), 'no branch on poison')
                    if p is True:
                        return []
                if isinstance(x, bool):
                    x = int(x)
                if not isinstance(x, int):
                    x = z3.simplify(bv(x, t[1]))
                    if z3.is_bv_value(x):
                        x = x.as_long()
                if isinstance(x, int):
                    lab = d
                    for cv, cl in cases:
                        if cv == x:
                            lab = cl
                    self.goto(st, fr, lab)
                    if self.merge and not self.alone and lab in fr.fn.joins():
                        return [st]
                    continue
                outs = []
                rest = []
                for cv, cl in cases:
                    c = x == z3.BitVecVal(cv, t[1])
                    rest.append(z3.Not(c))
                    if self.feasible(st, c):
                        o = st.copy()
                        o.pc.append(c)
                        self.goto(o, o.frames[-1], cl)
                        outs.append(o)
                rc = z3.And(*rest)
                if self.feasible(st, rc):
                    st.pc.append(rc)
                    self.goto(st, fr, d)
                    outs.append(st)
                return outs
            if op == 'ret':
                v = None if ins[3] is None else self.val(st, fr, ins[2], ins[3])
                st.frames.pop()
                if not st.frames:
                    self.finish(st, 'ret', v)
                    return []
                cf = st.frames[-1]
                if fr.ret is not None:
                    cf.env[fr.ret] = v
                    cf.got = (fr.ret, ins[2])
                if fr.normal is not None:
                    self.goto(st, cf, fr.normal)
                if self.merge and not self.alone:
                    return [st]
                continue
            if op == 'unreachable':
                self.must(st, False, 'unreachable code is not reached')
                return []
            if op in ('resume', 'landingpad'):
                raise Unsupported('unwinding path')
            if op == 'call':
                r = self.call(st, fr, ins)
                if r is not None:
                    return r
                continue
            if op == 'select' and ins[4] == PTR:
                r = self.choose(st, fr, ins)
                if r is not None:
                    return r
            self.step(st, fr, ins)

    def choose(self, st, fr, ins):
        """a choice between pointers into different objects: one path for each"""
        _, dst, ct, c, t, a, b = ins
        c = self.val(st, fr, ct, c)
        if c[1] is not None or isinstance(c[0], bool):
            return None
        x, y = self.val(st, fr, t, a), self.val(st, fr, t, b)
        px, py = isinstance(x[0], Ptr), isinstance(y[0], Ptr)
        if not (px or py) or px and py and x[0].obj is y[0].obj or \
           any(isinstance(v[0], Ptr) and v[0].obj.kind == 'heap' for v in (x, y)):
            return None
        outs = []
        for cond, v in ((c[0], x), (z3.Not(c[0]), y)):
            if self.feasible(st, cond):
                o = st.copy()
                o.pc.append(cond)
                o.frames[-1].env[dst] = v
                outs.append(o)
        return outs

    def step(self, st, fr, ins):
        op = ins[0]
        env = fr.env
        if op == 'bin':
            _, dst, o, t, a, b, fl = ins
            x, y = self.val(st, fr, t, a), self.val(st, fr, t, b)
            if t[0] == 'v':
                env[dst] = [self.bin1(st, o, t[2], p, q, fl) for p, q in zip(x, y)]
            else:
                env[dst] = self.bin1(st, o, t, x, y, fl)
        elif op == 'icmp':
            _, dst, pred, t, a, b = ins
            x, y = self.val(st, fr, t, a), self.val(st, fr, t, b)
            if t[0] == 'v':
                env[dst] = [self.icmp1(st, pred, t[2], p, q) for p, q in zip(x, y)]
            else:
                env[dst] = self.icmp1(st, pred, t, x, y)
        elif op == 'fcmp':
            _, dst, pred, t, a, b = ins
            x, y = self.val(st, fr, t, a), self.val(st, fr, t, b)

            def f(p, q, w):
                if por(p[1], q[1]) is True:
                    return POISON
                return (fp.fcmp(pred, p[0], q[0], w), por(p[1], q[1]))
            if t[0] == 'v':
                env[dst] = [f(p, q, t[2][1]) for p, q in zip(x, y)]
            else:
                env[dst] = f(x, y, t[1])
        elif op == 'fbin':
            _, dst, o, t, a, b, fl = ins
            if set(fl) - {'nsz', 'contract'} and fl:
                raise Unsupported('fast-math flags')
            x, y = self.val(st, fr, t, a), self.val(st, fr, t, b)

            def f(p, q, w):
                if por(p[1], q[1]) is True:
                    return POISON
                return (fp.fbin(o, p[0], q[0], w), por(p[1], q[1]))
            if t[0] == 'v':
                env[dst] = [f(p, q, t[2][1]) for p, q in zip(x, y)]
            else:
                env[dst] = f(x, y, t[1])
        elif op == 'fneg':
            _, dst, t, a, fl = ins
            x = self.val(st, fr, t, a)

            def f(p, w):
                return POISON if p[1] is True else (fp.fneg(p[0], w), p[1])
            env[dst] = [f(p, t[2][1]) for p in x] if t[0] == 'v' else f(x, t[1])
        elif op == 'cast':
            _, dst, o, t, v, t2, fl = ins
            x = self.val(st, fr, t, v)
            if o == 'bitcast':
                env[dst] = self.bitcast(t, x, t2)
            elif t[0] == 'v':
                env[dst] = [self.cast1(o, t[2], p, t2[2]) for p in x]
            else:
                env[dst] = self.cast1(o, t, x, t2)
        elif op == 'select':
            _, dst, ct, c, t, a, b = ins
            cv = self.val(st, fr, ct, c)
            x, y = self.val(st, fr, t, a), self.val(st, fr, t, b)
            env[dst] = self.select(ct, cv, t, x, y)
        elif op == 'load':
            _, dst, t, a, al = ins
            env[dst] = self.load(st, self.val(st, fr, PTR, a), t, al, fr.fn.mod)
        elif op == 'store':
            _, _, t, v, a, al = ins
            self.store(st, self.val(st, fr, PTR, a), t, self.val(st, fr, t, v), al, fr.fn.mod)
        elif op == 'alloca':
            _, dst, t, al, cnt = ins
            n = sizeof(t, fr.fn.mod)
            if cnt is not None:
                c = self.val(st, fr, ('i', 64), cnt)
                if not isinstance(c[0], int):
                    raise Unsupported('dynamic alloca')
                n *= c[0]
            o = Obj('stack', n, al)
            st.mem[o.oid] = {}
            env[dst] = (Ptr(o, 0), None)
        elif op == 'gep':
            _, dst, bt, ops, inb = ins
            vs = [(t, self.val(st, fr, t, v)) for t, v in ops]
            if any(t[0] == 'v' for t, _ in vs):
                n = [t[1] for t, _ in vs if t[0] == 'v'][0]
                env[dst] = [self.gep(st, bt, [((t[2], v[i]) if t[0] == 'v' else (t, v)) for t, v in vs], fr.fn.mod) for i in range(n)]
            else:
                env[dst] = self.gep(st, bt, vs, fr.fn.mod)
        elif op == 'extractelement':
            _, dst, t, v, it, i = ins
            x = self.val(st, fr, t, v)
            iv, ip = self.val(st, fr, it, i)
            if ip is True:
                env[dst] = POISON
            elif isinstance(iv, int):
                env[dst] = x[iv] if iv < t[1] else POISON
            else:
                r = x[t[1] - 1]
                for k in range(t[1] - 2, -1, -1):
                    r = self.sel1(iv == z3.BitVecVal(k, it[1]), x[k], r, t[2])
                q = por(r[1], ip)
                if (1 << it[1]) > t[1]:
                    q = por(q, z3.UGE(iv, z3.BitVecVal(t[1], it[1])))
                env[dst] = (r[0], q)
        elif op == 'insertelement':
            _, dst, t, v, et, e, it, i = ins
            x = list(self.val(st, fr, t, v))
            ev = self.val(st, fr, et, e)
            iv, ip = self.val(st, fr, it, i)
            if ip is True:
                x = [POISON] * t[1]
            elif isinstance(iv, int):
                if iv < t[1]:
                    x[iv] = ev
                else:
                    x = [POISON] * t[1]
            else:
                oob = z3.UGE(iv, z3.BitVecVal(t[1], it[1])) if (1 << it[1]) > t[1] else None
                r = []
                for k in range(t[1]):
                    s = self.sel1(iv == z3.BitVecVal(k, it[1]), ev, x[k], t[2])
                    r.append((s[0], por(s[1], ip, oob)))
                x = r
            env[dst] = x
        elif op == 'shufflevector':
            _, dst, t, a, b, mt, mk = ins
            x = self.val(st, fr, t, a) + self.val(st, fr, t, b)
            ms = self.val(st, fr, mt, mk)
            r = []
            for m, p in ms:
                r.append(POISON if p is True else x[m])
            env[dst] = r
        elif op == 'extractvalue':
            _, dst, t, v, idx = ins
            x = self.val(st, fr, t, v)
            for i in idx:
                x = x[i]
            env[dst] = x
        elif op == 'insertvalue':
            _, dst, t, v, et, e, idx = ins
            x = self.val(st, fr, t, v)
            ev = self.val(st, fr, et, e)

            def ins_(x, idx):
                x = list(x)
                if len(idx) == 1:
                    x[idx[0]] = ev
                else:
                    x[idx[0]] = ins_(x[idx[0]], idx[1:])
                return x
            env[dst] = ins_(x, idx)
        elif op == 'freeze':
            _, dst, t, v = ins
            x = self.val(st, fr, t, v)

            def f(s, e):
                if s[1] is None:
                    return s
                fr_ = self.fresh(1 if e == I1 else bitw(e))
                if s[1] is True:
                    return (fr_, None)
                return (ite(s[1], fr_, s[0], wid(e)), None)
            env[dst] = [f(s, t[2]) for s in x] if t[0] == 'v' else f(x, t)
        elif op == 'nop':
            pass
        else:
            raise Unsupported('op ' + op)

    def select(self, ct, cv, t, x, y):
        if ct[0] == 'v':
            r = []
            for c, a, b in zip(cv, x, y):
                r.append(self.select1(c, a, b, t[2]))
            return r
        return self.select_any(cv, t, x, y)

    def select_any(self, c, t, x, y):
        if t[0] == 'v':
            return [self.select1(c, a, b, t[2]) for a, b in zip(x, y)]
        if t[0] in ('a', 's'):
            ts = [t[2]] * t[1] if t[0] == 'a' else t[1]
            return [self.select_any(c, tt, a, b) for tt, a, b in zip(ts, x, y)]
        return self.select1(c, x, y, t)

    def select1(self, c, a, b, e):
        if c[1] is True:
            return POISON
        if isinstance(c[0], bool):
            r = a if c[0] else b
        else:
            r = self.sel1(c[0], a, b, e)
        if c[1] is not None:
            return (r[0], por(r[1], c[1]))
        return r

    def icmp1(self, st, pred, t, a, b):
        p = por(a[1], b[1])
        if p is True:
            return POISON
        x, y = a[0], b[0]
        if t == I1:
            x, y = bv(x, 1) if not isinstance(x, bool) else int(x), bv(y, 1) if not isinstance(y, bool) else int(y)
            return (icmp_t(pred, 1, x, y), p)
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj is y.obj and pred in ('eq', 'ne'):
                return (icmp_t(pred, 64, x.off & mask(64) if isinstance(x.off, int) else x.off,
                               y.off & mask(64) if isinstance(y.off, int) else y.off), p)
            if pred in ('eq', 'ne'):
                for u, v in ((x, y), (y, x)):
                    if isinstance(u, Ptr) and isinstance(v, int) and v == 0 and isinstance(u.off, int) and u.obj.kind != 'heap':
                        return (pred == 'ne', p)
        return (icmp_t(pred, bitw(t), x, y), p)

    # ------------------------------------------------------------ calls
    def call(self, st, fr, ins):
        _, dst, rt, callee, args, fl, normal = ins
        if callee[0] == 'loc':
            v = self.val(st, fr, PTR, callee)
            if isinstance(v[0], Ptr) and v[0].obj.kind == 'func':
                name = v[0].obj.name
            else:
                raise Unsupported('indirect call')
        else:
            name = callee[1]
        vals = [None if a[1][0] == 'meta' else self.val(st, fr, a[0], a[1]) for a in args]
        tys = [a[0] for a in args]

        def done(v):
            if dst is not None:
                fr.env[dst] = v
            if normal is not None:
                self.goto(st, fr, normal)
            return None
        m = INT_RE.match(name)
        if m:
            r = self.intrinsic(st, fr, m.group(1), rt, tys, vals, fl)
            if r is STOP:
                return []
            return done(r)
        for rx, h in self.externs:
            if rx.search(name):
                r = h(self, st, name, rt, tys, vals)
                if r is NotImplemented:
                    continue
                if isinstance(r, Fork):
                    outs = []
                    for cond, v, upd in r.alts:
                        if cond is not True and not self.feasible(st, cond):
                            continue
                        o = st.copy()
                        if cond is not True:
                            o.pc.append(cond)
                        if upd:
                            upd(o)
                        f2 = o.frames[-1]
                        if dst is not None:
                            f2.env[dst] = v
                        if normal is not None:
                            self.goto(o, f2, normal)
                        outs.append(o)
                    return outs
                if r is STOP:
                    return []
                return done(r)
        if fr.fn.mod.is_noreturn_decl(name) or any(mm.is_noreturn_decl(name) for mm in self.mods):
            if PANIC_RE.search(name):
                self.finish(st, 'panic')
                return []
            if 'abort' in name or 'trap' in name:
                self.finish(st, 'abort')
                return []
            raise Unsupported('noreturn ' + name)
        if name in ('@bcmp', '@memcmp'):
            return done(self.memcmp(st, name, vals, fr.fn.mod))
        f = self.find(name)
        if f is None or (self.opaque and self.opaque.search(name)):
            # library function on floats: uninterpreted
            r = self.opaque_float(name, rt, tys, vals)
            if r is not None:
                return done(r)
            raise Unsupported('external function ' + name)
        f.parse()
        if len(st.frames) > 40:
            raise Unsupported('recursion')
        nf = Frame(f, dst, normal)
        for (t, pn), v in zip(f.params, vals):
            nf.env[pn] = v
        st.frames.append(nf)
        return None

    def memcmp(self, st, name, vals, mod):
        (a, _), (b, _), (n, np) = vals
        if np is not None or not isinstance(n, int) or n > 4096:
            raise Unsupported(name + ' of symbolic length')
        xs = [self.load(st, (vals[0][0] if i == 0 else self.ptr_add(vals[0], i), None), ('i', 8), 1, mod) for i in range(n)]
        ys = [self.load(st, (vals[1][0] if i == 0 else self.ptr_add(vals[1], i), None), ('i', 8), 1, mod) for i in range(n)]
        p = por(*[x[1] for x in xs + ys])
        if p is True:
            return POISON
        if name == '@bcmp':
            e = z3.And(*[bv(x[0], 8) == bv(y[0], 8) for x, y in zip(xs, ys)])
            Obj.n += 1
            fresh = z3.BitVec('bcmp!%d' % Obj.n, 31)
            # any non-zero value when different
            return (z3.If(e, z3.BitVecVal(0, 32), z3.Concat(fresh, z3.BitVecVal(1, 1))), p)
        r = z3.BitVecVal(0, 32)
        for x, y in reversed(list(zip(xs, ys))):
            u, v = bv(x[0], 8), bv(y[0], 8)
            r = z3.If(u == v, r, z3.If(z3.ULT(u, v), z3.BitVecVal(-1, 32), z3.BitVecVal(1, 32)))
        return (r, p)

    def ptr_add(self, a, i):
        x = a[0]
        if isinstance(x, Ptr):
            return Ptr(x.obj, x.off + i if isinstance(x.off, int) else x.off + z3.BitVecVal(i, 64))
        return bv(x, 64) + z3.BitVecVal(i, 64)

    def opaque_float(self, name, rt, tys, vals):
        m = re.search(r'libm.*?(\d+)(tanhf?|sinf?|cosf?|expf?|logf?|powf?|sqrtf?|fmaf?)17h', name) or \
            re.match(r'^@()(tanhf?|sinf?|cosf?|expf?|logf?|powf?|fmaf?|fmodf?)$', name)
        if m and rt[0] == 'f' and all(t == rt for t in tys):
            base = m.group(2)
            if base.endswith('f'):
                base = base[:-1]
            if por(*[v[1] for v in vals]) is True:
                return POISON
            w = rt[1]
            f = {1: fp.fun1, 2: fp.fun2, 3: fp.fun3}[len(vals)]
            return (f(base, *[v[0] for v in vals], w), por(*[v[1] for v in vals]))
        return None

    def intrinsic(self, st, fr, name, rt, tys, vals, fl):
        from . import intrin
        return intrin.call(self, st, fr, name, rt, tys, vals, fl)


END = 1 << 40


def place(st):
    """where a state is, as a key that sorts what is executed first first"""
    k = []
    for f in st.frames:
        for p, h in f.fn.wto()[f.bb]:
            k.append(p)
            if h is not None:
                k.append(f.iters.get(h, 0))
        k.append(f.i)
    k.append(END)
    return k


class Either:
    """a where c holds, else b; made a value when it is used, if it ever is"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def value(self, ex, t):
        v, w = (x.value(ex, t) if type(x) is Either else x for x in (self.a, self.b))
        return v if same(v, w) else merge_val(ex, self.c, v, w, t)


def same(a, b):
    """same value, syntactically"""
    if a is b:
        return True
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if not (isinstance(a, tuple) and isinstance(b, tuple)):
        return False
    return same1(a[0], b[0]) and same1(a[1], b[1])


def same1(a, b):
    if a is b:
        return True
    if a is None or b is None:
        return False
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        return isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and same1(a.off, b.off)
    if isinstance(a, (int, bool)) or isinstance(b, (int, bool)):
        return type(a) is type(b) and a == b
    return a.eq(b)


class NoMerge(Exception):
    pass


def merge_states(ex, a, b):
    """the state that is a when a's path condition holds, else b; None if the two
    cannot be represented as one"""
    if len(a.frames) != len(b.frames) or a.user != b.user or a.trace != b.trace or not a.frames:
        return None
    k = 0
    while k < len(a.pc) and k < len(b.pc) and (a.pc[k] is b.pc[k] or a.pc[k].eq(b.pc[k])):
        k += 1
    ra, rb = a.pc[k:], b.pc[k:]
    if not ra or not rb:
        return None
    if len(rb) < len(ra):
        a, b, ra, rb = b, a, rb, ra
    c = ra[0] if len(ra) == 1 else z3.And(*ra)
    neg = z3.And(*rb) if len(rb) > 1 else rb[0]
    try:
        r = a.copy()
        for fa, fb, fr in zip(a.frames, b.frames, r.frames):
            if fa.fn is not fb.fn or fa.bb != fb.bb or fa.i != fb.i or fa.ret != fb.ret or fa.normal != fb.normal:
                return None
            ty = {}
            if fa is a.frames[-1]:
                for ins in fa.fn.block(fa.bb):
                    if ins[0] != 'phi':
                        break
                    ty[ins[1]] = ins[2]
                if fa.got is not None:
                    ty[fa.got[0]] = fa.got[1]
            env = {}
            for name, v in fa.env.items():
                if name not in fb.env:
                    # not defined on every path to this place, so not used after it
                    continue
                w = fb.env[name]
                if v is w or (type(v) is not Either and type(w) is not Either and same(v, w)):
                    env[name] = v
                else:
                    e = Either(c, v, w)
                    env[name] = e.value(ex, ty[name]) if name in ty else e
            fr.env = env
        for oid in set(a.mem) | set(b.mem):
            if oid not in b.mem:
                continue
            if oid not in a.mem:
                r.mem[oid] = dict(b.mem[oid])
                continue
            r.mem[oid] = merge_cells(c, a.mem[oid], b.mem[oid])
    except NoMerge:
        return None
    if a.heap is not b.heap:
        r.heap = z3.If(c, a.heap, b.heap)
    r.steps = max(a.steps, b.steps)
    r.pc = a.pc[:k]
    whole = z3.simplify(z3.Or(c, neg))
    if not z3.is_true(whole) and not valid(whole):
        r.pc.append(whole)
    return r


def valid(t):
    s = z3.Solver()
    s.set('timeout', 500)
    s.add(z3.Not(t))
    return s.check() == z3.unsat


def merge_val(ex, c, v, w, t):
    if t[0] == 'v':
        return [x if same(x, y) else merge_sc(c, x, y, t[2]) for x, y in zip(v, w)]
    if t[0] in ('a', 's'):
        ts = [t[2]] * t[1] if t[0] == 'a' else t[1]
        return [merge_val(ex, c, x, y, u) for x, y, u in zip(v, w, ts)]
    return v if same(v, w) else merge_sc(c, v, w, t)


def merge_sc(c, a, b, t):
    if a[1] is True and b[1] is True:
        return POISON
    if a[1] is True or a[0] is None:
        return (b[0], pite(c, True, b[1]))
    if b[1] is True or b[0] is None:
        return (a[0], pite(c, a[1], True))
    if t[0] == 'p':
        for x, y in ((a[0], b[0]), (b[0], a[0])):
            if isinstance(x, Ptr) and not (isinstance(y, Ptr) and y.obj is x.obj):
                raise NoMerge()
    return (ite(c, a[0], b[0], wid(t)), pite(c, a[1], b[1]))


def merge_cells(c, x, y):
    if x is y:
        return dict(x)
    out = {}
    memo = {}
    for off in set(x) | set(y):
        p, q = x.get(off), y.get(off)
        if p is not None and q is not None and (p is q or (p[1] == q[1] and p[2] == q[2] and same(p[0], q[0]))):
            # keep one identity per value, so that a load still sees it whole
            out[off] = p
            continue
        if p is None:
            p = (POISON, q[1], q[2])
        if q is None:
            q = (POISON, p[1], p[2])
        if p[1] == q[1] and p[2] == q[2]:
            key = (off - p[1], id(p[0]), id(q[0]), p[2])
            v = memo.get(key)
            if v is None:
                isp = isinstance(p[0][0], Ptr) or isinstance(q[0][0], Ptr)
                v = merge_sc(c, p[0], q[0], PTR if isp else ('i', 8 * p[2]))
                memo[key] = v
                memo[(key, 0)] = (p, q)      # keeps the ids alive
            out[off] = (v, p[1], p[2])
        else:
            out[off] = (merge_sc(c, byte_of(p), byte_of(q), ('i', 8)), 0, 1)
    return out


def byte_of(cell):
    (x, p), k, n = cell
    if p is True or x is None:
        return POISON
    if isinstance(x, Ptr):
        raise NoMerge()
    if isinstance(x, int):
        return ((int(x) >> (8 * k)) & 255, p)
    return (z3.Extract(8 * k + 7, 8 * k, x) if n > 1 else x, p)


class Fork:
    def __init__(self, alts):
        self.alts = alts


STOP = object()


def concat(xs, w):
    """little-endian lane order: xs[0] is the least significant"""
    if all(isinstance(x, int) for x in xs):
        r = 0
        for i, x in enumerate(xs):
            r |= int(x) << (i * w)
        return r
    bs = [bv(x, w) for x in xs]
    return bs[0] if len(bs) == 1 else z3.Concat(*reversed(bs))
