"""Run the real compiled code on concrete inputs and compare with the contract."""
import ctypes
import json
import os
import random
import struct
import sys
import z3
from . import evalz, fp, build
from .contract import Env, In, Out, InOut, Usize, Slice

PAD = 256
REGION = 0x200000000000      # raw-pointer replays run on one page mapped here
RSIZE = 512


def map_region():
    c = ctypes.CDLL(None, use_errno=True)
    c.mmap.restype = ctypes.c_void_p
    c.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
    p = c.mmap(REGION, 4096, 3, 0x02 | 0x20 | 0x100000, -1, 0)
    if p != REGION:
        raise RuntimeError('mmap')
CAN = 0xA5


class Buf:
    def __init__(self, size, amod=0):
        """size bytes at an address == amod (mod 64), canaries around"""
        self.raw = ctypes.create_string_buffer(size + 2 * PAD + 128)
        base = ctypes.addressof(self.raw)
        a = (base + PAD + 63) // 64 * 64 + (amod % 64)
        self.addr = a
        self.size = size
        self.base = base
        ctypes.memset(base, CAN, len(self.raw))

    def write(self, b):
        ctypes.memmove(self.addr, b, len(b))

    def read(self):
        return ctypes.string_at(self.addr, self.size)

    def canary_ok(self):
        whole = ctypes.string_at(self.base, len(self.raw))
        o = self.addr - self.base
        return all(x == CAN for x in whole[:o]) and all(x == CAN for x in whole[o + self.size:])


def pack(vals, bits):
    n = bits // 8
    return b''.join(int(v & ((1 << bits) - 1)).to_bytes(n, 'little') for v in vals)


def unpack(b, bits):
    n = bits // 8
    return [int.from_bytes(b[i:i + n], 'little') for i in range(0, len(b), n)]


def run_child(so, fname, fn, asgs, limit=20):
    """run the compiled function on each assignment in a child process.
    returns list of ('ok'|'panic'|'crash', {arg: lanes}, canaries_ok)"""
    import pickle
    results = []
    i = 0
    while i < len(asgs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                import resource
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_CPU, (limit, limit + 1))
                dn = os.open('/dev/null', os.O_WRONLY)
                os.dup2(dn, 2)
                if fn.heap:
                    map_region()
                lib = ctypes.CDLL(so)
                call = lib.vp_call
                call.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_void_p]
                addr = ctypes.cast(getattr(lib, fname), ctypes.c_void_p).value
                with os.fdopen(w, 'wb') as f:
                    for a in asgs[i:]:
                        pickle.dump(run1(call, addr, fn, a), f)
                        f.flush()
            except BaseException:
                os._exit(3)
            os._exit(0)
        os.close(w)
        got = 0
        with os.fdopen(r, 'rb') as f:
            while True:
                try:
                    results.append(pickle.load(f))
                    got += 1
                except EOFError:
                    break
                except Exception:
                    break
        _, status = os.waitpid(pid, 0)
        i += got
        if i < len(asgs):
            if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 3:
                raise RuntimeError('replay child failed')
            results.append(('crash', {}, False))
            i += 1
    return results


def run1(call, addr, fn, a):
    args = []
    bufs = {}
    for g in fn.args:
        if isinstance(g, Usize):
            args.append(a[g.name][0])
        elif isinstance(g, Slice):
            esz = g.vt.bits // 8
            ln = a[g.name + '.len']
            real = min(ln, g.init)
            b = Buf(real * esz, a[g.name + '.addr'])
            b.write(pack(a[g.name][:real], g.vt.bits))
            bufs[g.name] = b
            args += [b.addr, ln]
        else:
            b = Buf(g.vt.size)
            if type(g) is not Out:
                b.write(pack(a[g.name], g.vt.bits))
            bufs[g.name] = b
            args.append(b.addr)
    arr = (ctypes.c_size_t * len(args))(*args)
    if fn.heap:
        ctypes.memset(REGION, CAN, 4096)
        ctypes.memmove(REGION, bytes(a['#heap']), RSIZE)
    rc = call(addr, len(args), ctypes.addressof(arr))
    out = {}
    can = True
    for g in fn.args:
        if isinstance(g, Usize):
            continue
        b = bufs[g.name]
        out[g.name] = unpack(b.read(), g.vt.bits)
        can = can and b.canary_ok()
    if fn.heap:
        out['#heap'] = list(ctypes.string_at(REGION, RSIZE))
        can = can and all(x == CAN for x in ctypes.string_at(REGION + RSIZE, 4096 - RSIZE))
    return ('panic' if rc else 'ok', out, can)


def asg_subst(env, a):
    sub = []
    for name, what, xs in env.vars:
        for x, v in zip(xs, a[name]):
            sub.append((x, z3.BitVecVal(v, x.size())))
    for n, x in env.length.items():
        sub.append((x, z3.BitVecVal(a[n + '.len'], 64)))
    for n, x in env.base.items():
        sub.append((x, z3.BitVecVal(a[n + '.addr'], 64)))
    return sub


def same(x, y, vt, mode):
    if vt.kind == 'f':
        w = vt.bits
        if fp.is_nan(x, w) and fp.is_nan(y, w):
            return True
        if x == y:
            return True
        if mode and mode.startswith('ulp'):
            def key(v):
                return -(v & fp.absmask(w)) if v >> (w - 1) else v
            return abs(key(x) - key(y)) <= int(mode[3:])
        return False
    return x == y


class HeapEv:
    """concrete evaluation of terms over the byte array"""

    def __init__(self, env, a):
        self.sub = asg_subst(env, a)
        h = z3.K(z3.BitVecSort(64), z3.BitVecVal(0, 8))
        for i, x in enumerate(a['#heap']):
            h = z3.Store(h, z3.BitVecVal(REGION + i, 64), z3.BitVecVal(x, 8))
        self.sub.append((env.heap0, h))

    def ev(self, t):
        if isinstance(t, (bool, int)):
            return t
        r = z3.simplify(z3.substitute(t, *self.sub))
        if z3.is_true(r) or z3.is_false(r):
            return z3.is_true(r)
        return r.as_long()


def in_region(fn, a):
    """every enabled pointer lies in the mapped page"""
    ps = [g for g in fn.args if isinstance(g, In) and g.vt.kind == 'p']
    ms = [g for g in fn.args if isinstance(g, In) and g.vt.kind == 'm']
    return all(REGION <= p <= REGION + RSIZE - 16 for p, m in zip(a[ps[0].name], a[ms[0].name]) if m)


class Oracle:
    """the contract, evaluated concretely"""

    def __init__(self, fn):
        self.fn = fn
        self.env = Env(fn)
        self.spec = fn.spec(self.env)
        self.req = self.env.requires + [x for x in self.spec.requires]

    def evl(self, a):
        return HeapEv(self.env, a) if self.fn.heap else evalz.Ev(asg_subst(self.env, a))

    def req_ok(self, a):
        if self.fn.heap and not in_region(self.fn, a):
            return False
        ev = self.evl(a)
        c = z3.And(*[z3.BoolVal(x) if isinstance(x, bool) else x for x in self.req]) if self.req else True
        return ev.ev(c)

    def judge(self, a, res):
        """None if the run agrees with the contract, else a description"""
        kind, out, can = res
        ev = self.evl(a)
        if kind == 'crash':
            return 'the process crashed'
        if not can:
            return 'memory outside the arguments was written'
        p = ev.ev(self.spec.panics)
        may = ev.ev(self.spec.may_panic) if self.spec.may_panic is not None else False
        if kind == 'panic':
            if not (p or may):
                return 'panicked although the contract says it returns'
            for g in self.fn.args:
                if isinstance(g, Slice) and g.mut and list(out[g.name]) != list(a[g.name][:len(out[g.name])]):
                    return 'panicked after changing the slice'
            return None
        if p:
            return 'returned although the contract says it panics'
        for g in self.fn.args:
            if isinstance(g, Usize):
                continue
            got = out[g.name]
            if isinstance(g, Slice):
                exp = list(self.spec.outs.get(g.name, [])) if g.mut else []
                exp = exp + a[g.name][len(exp):]
                exp = exp[:len(got)]
            elif type(g) is In:
                exp = a[g.name]
            else:
                exp = self.spec.outs.get(g.name)
                if exp is None:
                    continue
            mode = self.fn.cmp.get(g.name)
            for i, (x, e) in enumerate(zip(got, exp)):
                if callable(e):
                    c = e(z3.BitVecVal(x, g.vt.bits))
                    if not (all(ev.ev(y) for _, y in c) if isinstance(c, list) else ev.ev(c)):
                        return '%s[%d] = %s violates the contract' % (g.name, i, hex(x))
                    continue
                v = ev.ev(e)
                if isinstance(v, bool):
                    v = int(v)
                if not same(x, v, g.vt, mode):
                    return '%s[%d] = %s, contract says %s' % (g.name, i, hex(x), hex(v))
        if self.fn.heap:
            h = self.spec.heap(self.env.heap0) if self.spec.heap else self.env.heap0
            h = z3.substitute(h, *ev.sub)
            for i, x in enumerate(out['#heap']):
                e = z3.simplify(z3.Select(h, z3.BitVecVal(REGION + i, 64))).as_long()
                if e != x:
                    return 'memory byte %d after the call is %#x, contract says %#x' % (i, x, e)
        if self.spec.checks is not None:
            for l, c in self.spec.checks({n: [z3.BitVecVal(x, gg.vt.bits) for x in out[n]] for gg in self.fn.args if not isinstance(gg, Usize) for n in [gg.name]}):
                if not ev.ev(c):
                    return l
        return None


FS = {32: [0x0, 0x80000000, 0x3f800000, 0xbf800000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7f7fffff, 0x00000001, 0x00800000, 0x40490fdb, 0x4f000000, 0xcf000000, 0x3f000000, 0x42f70000],
      64: [0x0, 1 << 63, 0x3ff0000000000000, 0xbff0000000000000, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0x7fefffffffffffff, 1, 0x10000000000000, 0x400921fb54442d18, 0x43e0000000000000, 0x3fe0000000000000]}


def rnd_lane(rng, vt):
    b = vt.bits
    if vt.kind == 'm':
        return rng.choice([0, (1 << b) - 1])
    if vt.kind == 'b':
        return rng.randrange(2)
    if vt.kind == 'f':
        r = rng.random()
        if r < 0.3:
            return rng.choice(FS[b])
        if r < 0.6:
            return evalz.bits(rng.uniform(-10, 10), b)
        if r < 0.8:
            return evalz.bits(float(rng.randrange(-1000, 1000)), b)
        return rng.getrandbits(b)
    r = rng.random()
    if r < 0.35:
        return rng.choice([0, 1, (1 << b) - 1, 1 << (b - 1), (1 << (b - 1)) - 1, 2, b - 1, b, vt.n, vt.n - 1]) & ((1 << b) - 1)
    if r < 0.5:
        return rng.randrange(0, 2 * vt.n + 2) & ((1 << b) - 1)
    return rng.getrandbits(b)


def rnd_asg(rng, fn):
    a = {}
    for g in fn.args:
        if isinstance(g, Usize):
            a[g.name] = [rng.choice([rng.randrange(0, 2 * (g.cap or 64) + 1), rng.getrandbits(64), g.cap or 1, (g.cap or 1) - 1])]
        elif isinstance(g, Slice):
            a[g.name] = [rnd_lane(rng, g.vt) for _ in range(g.init)]
            a[g.name + '.len'] = rng.choice([0, g.n - 1, g.n, g.n + 1, g.init, g.n])
            esz = g.vt.ealign
            a[g.name + '.addr'] = 4096 + rng.choice([0, 0, esz, 2 * esz, 4 * esz, 3 * esz, 32, 16]) % 64
        else:
            if rng.random() < 0.25:
                v = rnd_lane(rng, g.vt)
                a[g.name] = [v] * g.vt.n
            else:
                a[g.name] = [rnd_lane(rng, g.vt) for _ in range(g.vt.n)]
    if fn.heap:
        a['#heap'] = [rng.randrange(256) for _ in range(RSIZE)]
        for g in fn.args:
            if isinstance(g, In) and g.vt.kind == 'p':
                a[g.name] = [REGION + 16 * rng.randrange(RSIZE // 16 if rng.random() < .5 else 3) for _ in range(g.vt.n)]
                for h in fn.args:
                    if isinstance(h, In) and h.vt.kind == 'm':
                        for i, m in enumerate(a[h.name]):
                            if not m:
                                a[g.name][i] = rng.choice([0, 1, 2, a[g.name][i]])
        return a
    # sometimes alias equal inputs
    ins = [g for g in fn.args if isinstance(g, In) and type(g) is not Out]
    if len(ins) >= 2 and rng.random() < 0.3 and ins[0].vt.bits == ins[1].vt.bits and ins[0].vt.n == ins[1].vt.n:
        x = list(a[ins[0].name])
        if rng.random() < 0.6:
            j = rng.randrange(len(x))
            x[j] = rnd_lane(rng, ins[1].vt)
        a[ins[1].name] = x
    return a


def repair(orc, a, rng):
    """make an assignment satisfy the precondition, keeping as much as possible"""
    if orc.req_ok(a):
        return a
    if orc.fn.heap:
        return None
    s = z3.Solver()
    s.set('timeout', 3000)
    o = z3.Optimize()
    for q in orc.req:
        s.add(q)
    if s.check() != z3.sat:
        return None
    # per-lane greedy: keep lanes that are compatible
    pairs = asg_subst(orc.env, a)
    rng.shuffle(pairs)
    for x, v in pairs:
        s.push()
        s.add(x == v)
        if s.check() != z3.sat:
            s.pop()
    if s.check() != z3.sat:
        return None
    m = s.model()
    out = {}

    def ev(x):
        return m.eval(x, model_completion=True).as_long()
    for name, what, xs in orc.env.vars:
        out[name] = [ev(x) for x in xs]
    for n, x in orc.env.length.items():
        out[n + '.len'] = ev(x)
    for n, x in orc.env.base.items():
        out[n + '.addr'] = ev(x)
    return out


def clip(fn, a):
    """slice lengths beyond the modelled prefix cannot be allocated"""
    for g in fn.args:
        if isinstance(g, Slice) and a[g.name + '.len'] > g.init:
            a = dict(a)
            a[g.name + '.len'] = g.init
    return a


def try_inputs(fn, cfg, out, asgs):
    """first (assignment, description, observed) that disagrees with the contract, or None"""
    if not fn.replay or not build.cpu_ok(cfg):
        return None, 0
    so = build.link_shard(cfg, out)
    orc = Oracle(fn)
    asgs = [clip(fn, a) for a in asgs]
    good = [a for a in asgs if orc.req_ok(a)]
    if not good:
        return None, 0
    res = run_child(so, fn.name, fn, good)
    for a, rr in zip(good, res):
        d = orc.judge(a, rr)
        if d:
            return (a, d, {'outcome': rr[0], 'out': rr[1]}), len(good)
    return None, len(good)


def fuzz(fn, cfg, out, n, seed):
    if not fn.replay or not build.cpu_ok(cfg):
        return None, 0
    rng = random.Random(seed * 1000003 + hash(fn.name) % 65536 if False else '%d/%s' % (seed, fn.name))
    orc = Oracle(fn)
    asgs = []
    for _ in range(n):
        a = rnd_asg(rng, fn)
        a = repair(orc, a, rng)
        if a is not None:
            asgs.append(a)
    if not asgs:
        return None, 0
    return try_inputs(fn, cfg, out, asgs)
