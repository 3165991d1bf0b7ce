"""Contracts: what a wrapper may assume, when it may panic, what it must produce
and what it may touch."""
import z3
from . import fp
from .types import VT, scalar


class In:
    def __init__(self, name, vt, raw=False):
        self.name, self.vt, self.raw = name, vt, raw


class Out(In):
    pass


class InOut(In):
    pass


class Usize:
    def __init__(self, name, cap=None):
        self.name = name
        self.cap = cap   # for the bounded fallback only


class Slice:
    """&[T] / &mut [T] of unknown length; `n` lanes matter to the contract."""

    def __init__(self, name, vt, n, mut=False):
        self.name, self.vt, self.n, self.mut = name, vt, n, mut
        self.init = 2 * n


class Spec:
    def __init__(self, outs=None, requires=(), panics=False, heap=None, perm=None, checks=None, may_panic=None, trace=None):
        self.outs = outs or {}
        self.requires = list(requires)
        self.panics = panics          # panics exactly if
        self.may_panic = may_panic    # additionally allowed to panic if
        self.heap = heap              # expected final heap as function heap0 -> heap
        self.perm = perm              # [(addr, nbytes, guard)] the enabled lanes
        self.checks = checks          # callable(actual dict) -> [(label, Bool)]


class Fn:
    """One contract on one API function at one type."""

    def __init__(self, name, args, body, spec, pre='', cmp=None, heap=False, note=None, api=None, replay=True, kind='fn'):
        self.name = name
        self.args = args
        self.body = body
        self.spec = spec
        self.pre = pre
        self.cmp = cmp or {}
        self.heap = heap
        self.api = api or name
        self.note = note
        self.replay = replay
        self.kind = kind

    def rust(self):
        ps = []
        for a in self.args:
            if isinstance(a, Usize):
                ps.append('%s: usize' % a.name)
            elif isinstance(a, Slice):
                ps.append('%s: *%s %s, %s_len: usize' % (a.name, 'mut' if a.mut else 'const', a.vt.name, a.name))
            elif type(a) is In:
                ps.append('%s: *const %s' % (a.name, a.vt.name))
            else:
                ps.append('%s: *mut %s' % (a.name, a.vt.name))
        return '%s\n#[no_mangle] pub unsafe extern "C-unwind" fn %s(%s) { %s }\n' % (self.pre, self.name, ', '.join(ps), self.body)


class Env:
    """symbolic inputs of a contract"""

    def __init__(self, fn):
        self.v = {}
        self.base = {}
        self.length = {}
        self.requires = []
        self.vars = []      # (argname, what, var)
        self.heap0 = None
        for a in fn.args:
            if isinstance(a, Usize):
                x = z3.BitVec('%s' % a.name, 64)
                self.v[a.name] = x
                self.vars.append((a.name, 'usize', [x]))
            elif isinstance(a, Slice):
                xs = [z3.BitVec('%s[%d]' % (a.name, i), a.vt.bits) for i in range(a.init)]
                self.v[a.name] = xs
                ln = z3.BitVec('%s.len' % a.name, 64)
                bs = z3.BitVec('%s.addr' % a.name, 64)
                self.length[a.name] = ln
                self.base[a.name] = bs
                self.vars.append((a.name, 'slice', xs))
                esz = a.vt.bits // 8
                self.requires += [z3.ULE(ln, z3.BitVecVal((1 << 62) // esz, 64)),
                                  z3.ULE(bs, z3.BitVecVal(1 << 62, 64)), bs != 0,
                                  (bs & z3.BitVecVal(a.vt.ealign - 1, 64)) == 0]
                self._valid(a.vt, xs)
            else:
                xs = [z3.BitVec('%s[%d]' % (a.name, i), a.vt.bits) for i in range(a.vt.n)]
                self.v[a.name] = xs
                self.vars.append((a.name, 'lanes', xs))
                if type(a) is not Out and not a.raw:
                    self._valid(a.vt, xs)
        if fn.heap:
            self.heap0 = z3.Array('heap', z3.BitVecSort(64), z3.BitVecSort(8))

    def _valid(self, vt, xs):
        if vt.kind == 'm':
            for x in xs:
                self.requires.append(z3.Or(x == 0, x == z3.BitVecVal(-1, vt.bits)))
        elif vt.kind == 'b':
            for x in xs:
                self.requires.append(z3.ULE(x, z3.BitVecVal(1, 8)))

    def __getitem__(self, k):
        return self.v[k]

    def s(self, k):
        return self.v[k][0]


# ---------------------------------------------------------------- spec helpers
def mask_t(c, bits):
    """all-ones / all-zeros lane"""
    return z3.If(c, z3.BitVecVal(-1, bits), z3.BitVecVal(0, bits))


def bool_t(c):
    return z3.If(c, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))


def k(x, bits):
    return z3.BitVecVal(x, bits)


def lt(t, a, b):
    """strict order of a lane type"""
    if t.kind == 'i':
        return a < b
    if t.kind == 'f':
        return fp.olt(a, b, t.bits)
    if t.kind == 'm':
        return z3.And(a == 0, b != 0)     # false < true
    return z3.ULT(a, b)


def eq(t, a, b):
    if t.kind == 'f':
        return fp.oeq(a, b, t.bits)
    return a == b
