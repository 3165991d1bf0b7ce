"""Text formatting: name, parenthesis, the lanes in order, each formatted as its
element type with the caller's flags; a failing sink stops the output."""
import re
import z3
from ..contract import *
from ..types import *
from ..llir import Unsupported
from .. import sym
from .common import *

TRUST = ['the text produced for one lane by the standard library (an opaque token per function and value)']
ASSUME = ['core::fmt::Arguments has the layout {pieces, args, fmt} of the pinned toolchain (checked indirectly: a mis-parsed layout would not reproduce the expected text)',
          'standard-library formatting functions do not change the flags of the Formatter',
          'the sink is modelled as failing at an arbitrary position of the text, however the text is chunked']

PRELUDE = '''use core::fmt::{self, Write};
static mut VP_M: u8 = 0;
#[no_mangle] #[inline(never)] pub extern "C" fn vp_mark() { unsafe { core::ptr::write_volatile(&mut VP_M, 1) } }
#[no_mangle] #[inline(never)] pub extern "C" fn vp_end() { unsafe { core::ptr::write_volatile(&mut VP_M, 2) } }
pub struct Sink { b: [u8; 8192], n: usize, cap: usize, once: bool }
impl Sink { fn new(cap: usize, once: bool) -> Self { Sink { b: [0; 8192], n: 0, cap, once } } }
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for &c in s.as_bytes() { if self.n >= self.cap || self.n >= 8192 { if self.once { self.cap = 8192; } return Err(fmt::Error); } self.b[self.n] = c; self.n += 1; }
        Ok(())
    }
}
fn same(a: &Sink, x: fmt::Result, b: &Sink, y: fmt::Result) -> bool { x.is_err() == y.is_err() && a.n == b.n && a.b[..a.n] == b.b[..a.n] }
fn caps(n: usize, i: usize) -> usize { if n <= 240 { i } else if i < 120 { i } else { n - 240 + i } }
'''

SIZES = {'i8': 1, 'u8': 1, 'bool': 1, 'i16': 2, 'u16': 2, 'i32': 4, 'u32': 4, 'i64': 8, 'u64': 8, 'isize': 8, 'usize': 8, 'i128': 16, 'u128': 16, 'f32': 4, 'f64': 8}
TY = re.compile(r'(?:for\$u20\$|\$LT\$)(%s)\b' % '|'.join(sorted(SIZES, key=len, reverse=True)))


def strip(n):
    return re.sub(r'17h[0-9a-f]{16}E"?$', '', n)


def concrete(x, what):
    if isinstance(x, int) and not isinstance(x, bool):
        return x
    if z3.is_bv(x):
        x = z3.simplify(x)
        if z3.is_bv_value(x):
            return x.as_long()
    raise Unsupported('fmt: symbolic ' + what)


def rd_bytes(ex, st, p, n, mod):
    out = []
    for i in range(n):
        v, q = ex.load(st, (ex.ptr_add(p, i), None), ('i', 8), 1, mod)
        if q is not None:
            raise Unsupported('fmt: undefined text')
        out.append(('byte', concrete(v, 'text')))
    return out


def rd_word(ex, st, p, off, t, mod):
    v, q = ex.load(st, (ex.ptr_add(p, off), None), t, 8, mod)
    if q is not None:
        raise Unsupported('fmt: undefined argument')
    return v


def lane_value(ex, st, name, p, mod):
    m = TY.search(name)
    if not m:
        raise Unsupported('fmt: ' + name)
    v, q = ex.load(st, p, ('i', 8 * SIZES[m.group(1)]), 1, mod)
    if q is not None:
        ex.must(st, False if q is True else z3.Not(q), 'formatted lane is defined')
        if q is True:
            return z3.BitVecVal(0, 8)
    return sym.bv(v, 8 * SIZES[m.group(1)])


def tokens(ex, st, name, tys, vals, mod):
    n = strip(name)
    if re.search(r'Formatter9write_fmt$', n):
        a = vals[1]
        pp, pn = rd_word(ex, st, a, 0, sym.PTR, mod), concrete(rd_word(ex, st, a, 8, ('i', 64), mod), 'pieces')
        ap, an = rd_word(ex, st, a, 16, sym.PTR, mod), concrete(rd_word(ex, st, a, 24, ('i', 64), mod), 'args')
        f = rd_word(ex, st, a, 32, sym.PTR, mod)
        if not (isinstance(f, int) and f == 0):
            raise Unsupported('fmt: format specs')
        out = []
        for i in range(max(pn, an)):
            if i < pn:
                sp, sn = rd_word(ex, st, (pp, None), 16 * i, sym.PTR, mod), concrete(rd_word(ex, st, (pp, None), 16 * i + 8, ('i', 64), mod), 'piece')
                out += rd_bytes(ex, st, (sp, None), sn, mod)
            if i < an:
                vp, fp_ = rd_word(ex, st, (ap, None), 16 * i, sym.PTR, mod), rd_word(ex, st, (ap, None), 16 * i + 8, sym.PTR, mod)
                if not (isinstance(fp_, sym.Ptr) and fp_.obj.kind == 'func'):
                    raise Unsupported('fmt: argument formatter')
                fn = fp_.obj.name
                if re.search(r'\$LT\$\$RF\$T\$u20\$as\$u20\$core\.\.fmt\.\.Display', fn):
                    g = ex.find(fn)
                    if g is None or not any('$LT$str$u20$as' in str(l) for l in g.lines):
                        raise Unsupported('fmt: ' + fn)
                    sp, sn = rd_word(ex, st, (vp, None), 0, sym.PTR, mod), concrete(rd_word(ex, st, (vp, None), 8, ('i', 64), mod), 'string')
                    out += rd_bytes(ex, st, (sp, None), sn, mod)
                else:
                    out.append(('plain ' + strip(fn), lane_value(ex, st, fn, (vp, None), mod)))
        return out
    if re.search(r'9write_str$', n):
        return rd_bytes(ex, st, vals[1], concrete(vals[2][0], 'length'), mod)
    if re.search(r'10write_char$', n):
        c = concrete(vals[1][0], 'char')
        if c > 127:
            raise Unsupported('fmt: char')
        return [('byte', c)]
    if re.search(r'pointer_fmt_inner$', n):
        return [(n, sym.bv(vals[0][0], 64))]
    if re.search(r'Formatter3pad$', n) or re.search(r'\$LT\$str\$u20\$as\$u20\$core\.\.fmt\.\.\w+\$GT\$3fmt$', n):
        i = 1 if 'Formatter3pad' in n else 0
        return [('pad', tuple(rd_bytes(ex, st, vals[i], concrete(vals[i + 1][0], 'length'), mod)))]
    if n.endswith('3fmt') and TY.search(n):
        return [(n, lane_value(ex, st, n, vals[0], mod))]
    raise Unsupported('fmt: ' + n)


QUERY = re.compile(r'Formatter\d+(debug_lower_hex|debug_upper_hex|alternate|sign_plus|sign_minus|sign_aware_zero_pad)$')
FIRST = re.compile(r'(Formatter\d+\w+|9write_str|10write_char|9write_fmt)$')


def formatter(ex, st, p, mod):
    p = p[0]
    if not (isinstance(p, sym.Ptr) and p.obj.name == 'f' and isinstance(p.off, int) and p.off == 0):
        raise Unsupported('fmt: not the caller\'s formatter')
    for i in range(8):
        v, q = ex.load(st, (ex.ptr_add((p, None), 8 * i), None), ('i', 64), 8, mod)
        if q is not None or not z3.is_bv(v) or not z3.simplify(v).eq(z3.BitVec('f[%d]' % i, 64)):
            raise Unsupported('fmt: formatter changed')


def event(ex, st, name, rt, tys, vals):
    if rt != sym.I1:
        raise Unsupported('fmt: ' + name)
    mod = st.frames[-1].fn.mod
    n = strip(name)
    if QUERY.search(n):
        formatter(ex, st, vals[0], mod)
        g = 'flag_' + QUERY.search(n).group(1)
        if g in st.user:
            return (st.user[g], None)

        def setf(val):
            return lambda s_: s_.user.__setitem__(g, val)
        return sym.Fork([(True, (True, None), setf(True)), (True, (False, None), setf(False))])
    formatter(ex, st, vals[0] if FIRST.search(n) else vals[-1], mod)
    tk = tokens(ex, st, name, tys, vals, mod)
    u = st.user
    if not tk:
        return (False, None)
    T = u.get('T', ())
    bad = u.get('bad')
    if u.get('mode', 1) == 1:
        if bad is not None:
            ex.must(st, False, 'no output after the sink failed')
            return sym.STOP
        i = len(T)
        u['T'] = T + tuple(tk)
    else:
        i = u.get('pos', 0)
        for j, t in enumerate(tk):
            if i + j >= len(T):
                if bad is None:
                    ex.must(st, False, 'the text is complete (missing: token %d)' % (i + j))
                    return sym.STOP
                break
            w = T[i + j]
            if t[0] != w[0]:
                ex.must(st, False, 'token %d of the text' % (i + j))
                return sym.STOP
            if isinstance(t[1], (int, tuple)):
                if t[1] != w[1]:
                    ex.must(st, False, 'token %d of the text' % (i + j))
                    return sym.STOP
            elif not t[1].eq(w[1]):
                if t[1].size() != w[1].size():
                    ex.must(st, False, 'token %d of the text' % (i + j))
                    return sym.STOP
                ex.must(st, t[1] == w[1], 'token %d of the text is lane value' % (i + j))
        u['pos'] = i + len(tk)
    # the sink accepts the text up to some token and fails there (or never):
    # lo <= failing token < hi, or it is beyond everything written (hi None)
    j = i + len(tk)
    lo, hi = u.get('lo', 0), u.get('hi')
    good = (lambda s_: s_.user.__setitem__('lo', max(lo, j)))

    def fail(s_):
        s_.user['lo'], s_.user['hi'] = max(lo, i), (j if hi is None else min(hi, j))
        if s_.user.get('mode', 1) == 1:
            s_.user['bad'] = i
    alts = []
    if hi is None or max(lo, j) < hi:
        alts.append((True, (False, None), good))
    if max(lo, i) < (j if hi is None else min(hi, j)):
        alts.append((True, (True, None), fail))
    if not alts:
        return sym.STOP
    if u.get('mode', 1) == 2 and hi is None and bad is None:
        alts = alts[:1]      # the sink accepted the whole of this text the first time
    return sym.Fork(alts)


def mark(ex, st, name, rt, tys, vals):
    st.user['mode'] = 2
    st.user['pos'] = 0
    return None


def end(ex, st, name, rt, tys, vals):
    if st.user.get('bad') is None:
        ex.must(st, st.user.get('pos', 0) == len(st.user.get('T', ())), 'nothing follows the specified text')
    return None


EXTERNS = [(re.compile(r'^@"?vp_mark'), mark), (re.compile(r'^@"?vp_end'), end),
           (re.compile(r'^@"?_ZN(4core3fmt|\d+_\$LT\$(\w+|core\.\.fmt\.\.Formatter)\$u20\$as\$u20\$core\.\.fmt)'), event)]


def cfgs(tier):
    return ['base', 'avx2', 'dbg'] if tier == 'quick' else ['base', 'ssse3', 'avx2', 'avx512', 'dbg', 'o1']


FLAGS = {'Debug': ['{:?}', '{:#?}', '{:7?}', '{:x?}', '{:#X?}', '{:+012?}'], 'LowerHex': ['{:x}', '{:#x}', '{:#012x}'], 'UpperHex': ['{:X}', '{:#X}', '{:#012X}'],
         'Octal': ['{:o}', '{:#o}', '{:012o}'], 'Binary': ['{:b}', '{:#b}', '{:#020b}']}


class FmtFn(Fn):
    def __init__(self, name, t, tn, arr, conv, tr, api, ref=None):
        self.t = t
        ref = ref or ('f.write_str("%s(")?; let mut i = 0; while i < %d { if i > 0 { f.write_str(", ")?; } fmt::%s::fmt(&%s, f)?; i += 1; } f.write_str(")")' % (tn, t.n, tr, conv))
        st = 'R_%s' % name
        pre = ('pub struct %s(%s); impl fmt::%s for %s { #[inline(always)] fn fmt(&self, f: &mut fmt::Formatter<\'_>) -> fmt::Result { let x = &self.0; %s } }' % (st, arr, tr, st, ref))
        body = ('let p = fmt::%s::fmt(&*a, &mut *(f as *mut fmt::Formatter<\'static>)).is_err(); vp_mark(); '
                'let r = %s(core::mem::transmute_copy(&*a)); let q = fmt::%s::fmt(&r, &mut *(f as *mut fmt::Formatter<\'static>)).is_err(); vp_end(); *o = p; *q_ = q;' % (tr, st, tr))
        self.fm = VT('u', 64, 8, '[u64; 8]', 'u64', False, align=8)
        bl = scalar('bool')

        def sp(env):
            def checks(v):
                return [('same verdict from the sink', sym.zb(one(v['o'][0])) == sym.zb(one(v['q_'][0])))]
            return Spec({'f': env['f']}, checks=checks)
        Fn.__init__(self, name, [Out('o', bl), Out('q_', bl), In('a', t), InOut('f', self.fm)], body, sp, pre=pre, api=api, kind='custom')
        cmp_ = ' '.join('{ let mut s = Sink::new(8192, false); let _ = write!(s, "%s", r); let n = s.n; let mut i = 0; while i <= n && i <= 240 { let cap = caps(n, i); '
                        'for once in [false, true] { let (mut s, mut z) = (Sink::new(cap, once), Sink::new(cap, once)); let x = write!(s, "%s", *a); let y = write!(z, "%s", r); if !same(&s, x, &z, y) { *o = false; } } i += 1; } }' % (g, g, g) for g in FLAGS[tr])
        self.b = Fn('b_' + name, [Out('o', bl), In('a', t)], 'let r = %s(core::mem::transmute_copy(&*a)); *o = true; %s' % (st, cmp_), lambda env: Spec({'o': [1]}), api=api)

    def rust(self):
        return Fn.rust(self) + self.b.rust().lstrip('\n')

    def decide(self, cfg, mods, out, seed):
        from .. import verify as V
        from .. import replay as R
        r = V.verify(self, cfg, mods, timeout=120, externs=EXTERNS)
        r.witness = None
        if r.status != 'proved' and not r.vacuous:
            w, n = R.fuzz(self.b, cfg, out, 30, seed)
            if w is not None:
                lab = r.failed[0] if r.failed else 'bounded check'
                r.status = 'failed'
                r.failed = (lab, w[0])
                r.witness = {'input': w[0], 'what': 'text or verdict differs from the specified one', 'observed': w[2]}
            elif r.status == 'undecided':
                r.bounded = n
        return r


def one(x):
    if isinstance(x, int):
        return bool(x)
    return x != 0 if z3.is_bv(x) else x


def fns(tier, cfg):
    out = []
    for t in ALL:
        arr = str(array(t))
        for tr in ('Debug', 'LowerHex', 'UpperHex', 'Octal', 'Binary') if t.kind in 'iu' else ('Debug',):
            out.append(FmtFn('%s_%s' % (tr.lower(), t), t, t.name, arr, 'x[i]' if t.kind != 'm' else 'x[i].test()', tr, '%s: %s' % (t, tr)))
    for kk in ('cptr', 'mptr'):
        for n in (2, 4, 8):
            t = ptrv(kk, n, 'i32')
            out.append(FmtFn('debug_%sx%d' % (kk, n), t, str(t), str(ptra(t)), 'x[i]', 'Debug', '%sx%d: Debug' % (kk, n)))
    for m in ('m8', 'm16', 'm32', 'm64', 'm128', 'msize'):
        t = scalar(m)
        out.append(FmtFn('debug_%s' % m, t, m, m, '', 'Debug', '%s: Debug' % m, ref='write!(f, "%s({})", x.test())' % m))
    return out
