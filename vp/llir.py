"""Parser for the textual LLVM IR that rustc (LLVM 16) emits.

Functions are indexed eagerly and parsed lazily.  Anything the parser does not
know raises `Unsupported`, which the driver turns into "undecided", never into
an alarm.
"""
import re
import struct


class Unsupported(Exception):
    pass


TOK = re.compile(r'''
    (?P<ws>\s+)
  | (?P<cmt>;.*)
  | (?P<str>c?"[^"]*")
  | (?P<loc>%(?:"[^"]*"|[-\w$.]+))
  | (?P<glob>@(?:"[^"]*"|[-\w$.]+))
  | (?P<meta>!(?:"[^"]*"|[-\w$.]*))
  | (?P<attr>\#\d+)
  | (?P<hex>0x[HKLMR]?[0-9A-Fa-f]+)
  | (?P<flt>-?\d+\.\d+(?:[eE][-+]?\d+)?)
  | (?P<int>-?\d+)
  | (?P<dots>\.\.\.)
  | (?P<word>[A-Za-z_$][-\w.$]*)
  | (?P<p>[<>{}\[\](),=*:|])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            raise Unsupported('token at %r' % s[pos:pos + 40])
        pos = m.end()
        k = m.lastgroup
        if k == 'ws':
            continue
        if k == 'cmt':
            break
        out.append((k, m.group()))
    return out


I1 = ('i', 1)
I8 = ('i', 8)
I32 = ('i', 32)
I64 = ('i', 64)
PTR = ('p',)
VOID = ('void',)


def sizeof(t, m):
    k = t[0]
    if k == 'i':
        b = (t[1] + 7) // 8
        # round up to alignment
        a = alignof(t, m)
        return (b + a - 1) // a * a
    if k == 'f':
        return t[1] // 8
    if k == 'p':
        return 8
    if k == 'v':
        e = t[2]
        bits = e[1] if e[0] in 'if' else 64
        b = (t[1] * bits + 7) // 8
        p = 1
        while p < b:
            p *= 2
        return p
    if k == 'a':
        return t[1] * sizeof(t[2], m)
    if k == 's':
        off, _ = struct_layout(t, m)
        return off
    if k == 'n':
        return sizeof(m.named(t[1]), m)
    raise Unsupported('sizeof %r' % (t,))


def alignof(t, m):
    k = t[0]
    if k == 'i':
        b = t[1]
        if b <= 8:
            return 1
        if b <= 16:
            return 2
        if b <= 32:
            return 4
        return 8
    if k == 'f':
        return t[1] // 8
    if k == 'p':
        return 8
    if k == 'v':
        return sizeof(t, m)
    if k == 'a':
        return alignof(t[2], m)
    if k == 's':
        if t[2]:
            return 1
        return max([alignof(x, m) for x in t[1]] + [1])
    if k == 'n':
        return alignof(m.named(t[1]), m)
    raise Unsupported('alignof %r' % (t,))


def struct_layout(t, m):
    off = 0
    offs = []
    al = 1
    for x in t[1]:
        if not t[2]:
            a = alignof(x, m)
            al = max(al, a)
            off = (off + a - 1) // a * a
        offs.append(off)
        off += sizeof(x, m)
    if not t[2]:
        off = (off + al - 1) // al * al
    return off, offs


VALWORDS = {'true', 'false', 'null', 'zeroinitializer', 'undef', 'poison', 'none',
            'getelementptr', 'ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext',
            'sub', 'add', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'icmp', 'select', 'asm'}
FMF = {'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'}
CCONV = {'fastcc', 'ccc', 'coldcc', 'tailcc', 'swiftcc'}


class P:
    """Token cursor."""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ('eof', '')

    def next(self):
        r = self.peek()
        self.i += 1
        return r

    def at(self, s):
        return self.peek()[1] == s

    def accept(self, s):
        if self.at(s):
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.accept(s):
            raise Unsupported('expected %r got %r in %s' % (s, self.peek(), ' '.join(x[1] for x in self.t[:60])))

    def eof(self):
        return self.i >= len(self.t)

    # ---- types
    def is_type_start(self):
        k, s = self.peek()
        if k == 'word':
            return s in ('void', 'float', 'double', 'half', 'ptr', 'label', 'metadata', 'token', 'x86_mmx', 'fp128', 'x86_fp80') or re.fullmatch(r'i\d+', s) is not None
        return s in ('<', '[', '{') or (k == 'loc')

    def type(self):
        k, s = self.next()
        if k == 'word':
            if s == 'void':
                t = VOID
            elif s == 'float':
                t = ('f', 32)
            elif s == 'double':
                t = ('f', 64)
            elif s == 'half':
                t = ('f', 16)
            elif s == 'ptr':
                t = PTR
                if self.at('addrspace'):
                    raise Unsupported('addrspace')
            elif s == 'label':
                t = ('label',)
            elif s == 'metadata':
                t = ('metadata',)
            elif s == 'token':
                t = ('token',)
            elif re.fullmatch(r'i\d+', s):
                t = ('i', int(s[1:]))
            else:
                raise Unsupported('type %s' % s)
        elif s == '<':
            if self.at('{'):
                self.next()
                els = self.typelist('}')
                self.expect('>')
                t = ('s', tuple(els), True)
            else:
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('v', n, e)
        elif s == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('a', n, e)
        elif s == '{':
            els = self.typelist('}')
            t = ('s', tuple(els), False)
        elif k == 'loc':
            t = self.m.named(s)
        else:
            raise Unsupported('type %r' % s)
        # function type
        if self.at('(') and t[0] != 'label':
            save = self.i
            self.next()
            ok = True
            args = []
            if not self.at(')'):
                while True:
                    if self.accept('...'):
                        pass
                    elif self.is_type_start():
                        try:
                            args.append(self.type())
                        except Unsupported:
                            ok = False
                            break
                    else:
                        ok = False
                        break
                    if self.accept(','):
                        continue
                    break
            if ok and self.accept(')'):
                return ('fn', t, tuple(args))
            self.i = save
        return t

    def typelist(self, end):
        els = []
        if self.accept(end):
            return els
        while True:
            els.append(self.type())
            if self.accept(','):
                continue
            self.expect(end)
            return els

    # ---- values
    def value(self, ty):
        k, s = self.next()
        if k == 'loc':
            return ('l', s)
        if k == 'glob':
            return ('g', s)
        if k == 'int':
            if ty[0] == 'f':
                return ('c', fbits(float(s), ty[1]))
            return ('c', int(s) & ((1 << ty[1]) - 1))
        if k == 'flt':
            return ('c', fbits(float(s), ty[1]))
        if k == 'hex':
            if ty[0] == 'f':
                if s[2] in 'HKLMR':
                    if s[2] == 'H':
                        return ('c', int(s[3:], 16))
                    raise Unsupported('fp hex ' + s)
                v = int(s, 16)
                if ty[1] == 64:
                    return ('c', v)
                return ('c', dbl_to_flt_bits(v))
            return ('c', int(s, 16))
        if k == 'word':
            if s == 'true':
                return ('c', 1)
            if s == 'false':
                return ('c', 0)
            if s == 'null':
                return ('null',)
            if s == 'zeroinitializer':
                return ('zero',)
            if s in ('undef', 'poison'):
                return ('poison',)
            if s == 'none':
                return ('none',)
            if s == 'getelementptr':
                while self.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange'):
                    self.next()
                self.expect('(')
                bt = self.type()
                self.expect(',')
                ops = []
                while True:
                    self.accept('inrange')
                    t = self.type()
                    ops.append((t, self.value(t)))
                    if not self.accept(','):
                        break
                self.expect(')')
                return ('gep', bt, ops)
            if s in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
                self.expect('(')
                t = self.type()
                v = self.value(t)
                self.expect('to')
                t2 = self.type()
                self.expect(')')
                return ('cast', s, t, v, t2)
            if s in ('sub', 'add', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                while self.peek()[1] in ('nuw', 'nsw', 'exact'):
                    self.next()
                self.expect('(')
                t = self.type()
                a = self.value(t)
                self.expect(',')
                t2 = self.type()
                b = self.value(t2)
                self.expect(')')
                return ('binc', s, t, a, b)
            raise Unsupported('value %s' % s)
        if k == 'str':
            return ('str', unesc(s[2:-1] if s[0] == 'c' else s[1:-1]))
        if s == '<':
            if self.at('{'):
                self.next()
                els = self.valuelist('}')
                self.expect('>')
                return ('agg', els)
            els = self.valuelist('>')
            return ('agg', els)
        if s == '[':
            return ('agg', self.valuelist(']'))
        if s == '{':
            return ('agg', self.valuelist('}'))
        if k == 'meta':
            return ('meta', s)
        raise Unsupported('value %r' % s)

    def valuelist(self, end):
        els = []
        if self.accept(end):
            return els
        while True:
            t = self.type()
            els.append((t, self.value(t)))
            if self.accept(','):
                continue
            self.expect(end)
            return els

    def skip_attrs(self):
        attrs = []
        while True:
            k, s = self.peek()
            if k == 'word' and s not in VALWORDS and not self.is_type_start():
                self.next()
                if s == 'align' and self.peek()[0] == 'int':
                    attrs.append(('align', int(self.next()[1])))
                    continue
                if self.at('('):
                    attrs.append((s, self.skip_paren()))
                else:
                    attrs.append((s, None))
                continue
            if k == 'attr':
                self.next()
                continue
            if k == 'str':
                self.next()
                if self.accept('='):
                    self.next()
                continue
            return attrs

    def skip_paren(self):
        d = 0
        toks = []
        while True:
            k, s = self.next()
            if s == '(':
                d += 1
            elif s == ')':
                d -= 1
                if d == 0:
                    return toks
            elif k == 'eof':
                raise Unsupported('paren')
            toks.append(s)


def unesc(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode('latin1')
            i += 1
    return bytes(out)


def fbits(x, w):
    if w == 32:
        return struct.unpack('<I', struct.pack('<f', x))[0]
    if w == 64:
        return struct.unpack('<Q', struct.pack('<d', x))[0]
    raise Unsupported('fbits %d' % w)


def dbl_to_flt_bits(v):
    # hex float constants of type float are printed as the double with the same value
    s = v >> 63
    e = (v >> 52) & 0x7ff
    m = v & ((1 << 52) - 1)
    if e == 0x7ff:
        return (s << 31) | (0xff << 23) | (m >> 29)
    return fbits(struct.unpack('<d', struct.pack('<Q', v))[0], 32)


class Func:
    def __init__(self, name, header, lines, mod):
        self.name = name
        self.header = header
        self.lines = lines
        self.mod = mod
        self.parsed = False

    def parse(self):
        if self.parsed:
            return
        p = P(tokenize(self.header), self.mod)
        p.expect('define')
        # linkage and attrs
        while not p.is_type_start():
            k, s = p.next()
            if k == 'eof':
                raise Unsupported('header')
            if p.at('(') and k == 'word':
                p.skip_paren()
            elif s == 'align' and p.peek()[0] == 'int':
                p.next()
        self.retty = p.type()
        if self.retty[0] == 'fn':
            raise Unsupported('fn ret')
        nm = p.next()
        assert nm[0] == 'glob', nm
        p.expect('(')
        self.params = []
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    raise Unsupported('vararg def')
                t = p.type()
                p.skip_attrs()
                name = p.next()[1]
                self.params.append((t, name))
                if p.accept(','):
                    continue
                p.expect(')')
                break
        self.blocks = {}
        self.order = []
        cur = None
        buf = ''
        depth = 0
        for ln in self.lines:
            st = ln.strip()
            if not st or st[0] == ';':
                continue
            if depth == 0:
                m = re.match(r'^("[^"]*"|[-\w$.]+):', ln)
                if m:
                    cur = '%' + m.group(1)
                    self.blocks[cur] = []
                    self.order.append(cur)
                    continue
                if cur is None:
                    cur = '%entry.0'
                    self.blocks[cur] = []
                    self.order.append(cur)
            buf += ' ' + st if buf else st
            # multi-line switch / landingpad clauses
            if st.startswith('switch') or '= landingpad' in st or depth:
                depth += st.count('[') - st.count(']')
            if depth > 0:
                continue
            depth = 0
            if 'unwind label' not in buf and re.match(r'^(?:%(?:"[^"]*"|[-\w$.]+) = )?invoke ', buf):
                continue
            self.blocks[cur].append(buf)
            buf = ''
        self.entry = self.order[0]
        self.code = {}
        self.parsed = True

    def block(self, lab):
        c = self.code.get(lab)
        if c is None:
            c = [parse_inst(s, self.mod) for s in self.blocks[lab]]
            # fold landingpad continuation lines
            c = [x for x in c if x is not None]
            self.code[lab] = c
        return c


    def succs(self, lab):
        t = self.blocks[lab][-1].strip()
        t = re.sub(r'^%\S+ = ', '', t)
        w = t.split(None, 1)[0]
        if w in ('br', 'switch'):
            return re.findall(r'label (%(?:"[^"]*"|[-\w$.]+))', t)
        if w == 'ret':
            return [None]
        if w in ('invoke', 'to') or ' to label ' in t:
            return re.findall(r'to label (%(?:"[^"]*"|[-\w$.]+))', t)[:1]
        return []

    def wto(self):
        """weak topological order: block -> (place, ...) where each loop (a strongly
        connected component, recursively without its header) contributes its own place
        and its header: ((place, header) of the enclosing loops..., (place, None))"""
        if getattr(self, '_wto', None) is None:
            succ = {b: [s for s in self.succs(b) if s is not None and s in self.blocks] for b in self.order}
            pos = {}

            def order(nodes, entry, prefix):
                comps = sccs(nodes, succ, entry)
                for n, c in enumerate(comps):
                    c = set(c)
                    if len(c) == 1:
                        h = next(iter(c))
                        pos[h] = prefix + (((n, h), (0, None)) if h in succ[h] else ((n, None),))
                        continue
                    # the header: a block entered from outside
                    h = next(b for b in self.order if b in c and (b == self.entry or any(
                        b in succ[x] for x in self.order if x not in c)))
                    p = prefix + ((n, h),)
                    pos[h] = p + ((-1, None),)
                    order([b for b in self.order if b in c and b != h], h, p)
            order(list(self.order), self.entry, ())
            self._wto = pos
        return self._wto

    def joins(self):
        """the blocks with more than one predecessor"""
        if getattr(self, '_joins', None) is None:
            n = {}
            for b in self.order:
                for x in set(self.succs(b)):
                    n[x] = n.get(x, 0) + 1
            self._joins = {b for b, k in n.items() if k > 1}
        return self._joins


def sccs(nodes, succ, entry):
    """strongly connected components, in topological order (Tarjan, iterative)"""
    inn = set(nodes)
    num = {}
    low = {}
    on = set()
    stack = []
    out = []
    k = 0
    for root in ([entry] if entry in inn else []) + list(nodes):
        if root in num:
            continue
        num[root] = low[root] = k
        k += 1
        stack.append(root)
        on.add(root)
        work = [(root, iter(succ[root]))]
        while work:
            v, it = work[-1]
            for w in it:
                if w not in inn:
                    continue
                if w not in num:
                    num[w] = low[w] = k
                    k += 1
                    stack.append(w)
                    on.add(w)
                    work.append((w, iter(succ[w])))
                    break
                if w in on:
                    low[v] = min(low[v], num[w])
            else:
                work.pop()
                if work:
                    u = work[-1][0]
                    low[u] = min(low[u], low[v])
                if low[v] == num[v]:
                    c = []
                    while True:
                        w = stack.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    out.append(c)
    return out[::-1]


def strip_meta(toks):
    # cut trailing ", !name !n ..." at depth 0
    d = 0
    for i, (k, s) in enumerate(toks):
        if s in '([{<' and k == 'p':
            d += 1
        elif s in ')]}>' and k == 'p':
            d -= 1
        elif s == ',' and d == 0 and i + 1 < len(toks) and toks[i + 1][0] == 'meta':
            return toks[:i]
    return toks


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
FBIN = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast'}


def parse_inst(s, mod):
    toks = strip_meta(tokenize(s))
    p = P(toks, mod)
    dst = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        dst = p.next()[1]
        p.next()
    k, op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        k, op = p.next()
    if op in BIN:
        fl = []
        while p.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint'):
            fl.append(p.next()[1])
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return ('bin', dst, op, t, a, b, fl)
    if op in FBIN or op == 'fneg':
        fl = []
        while p.peek()[1] in FMF:
            fl.append(p.next()[1])
        t = p.type()
        a = p.value(t)
        if op == 'fneg':
            return ('fneg', dst, t, a, fl)
        p.expect(',')
        b = p.value(t)
        return ('fbin', dst, op, t, a, b, fl)
    if op in ('icmp', 'fcmp'):
        while p.peek()[1] in FMF or p.peek()[1] == 'samesign':
            p.next()
        pred = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return (op, dst, pred, t, a, b)
    if op in CASTS:
        fl = []
        while p.peek()[1] in ('nneg', 'nuw', 'nsw') or p.peek()[1] in FMF:
            fl.append(p.next()[1])
        t = p.type()
        v = p.value(t)
        p.expect('to')
        t2 = p.type()
        return ('cast', dst, op, t, v, t2, fl)
    if op == 'select':
        while p.peek()[1] in FMF:
            p.next()
        ct = p.type()
        c = p.value(ct)
        p.expect(',')
        t = p.type()
        a = p.value(t)
        p.expect(',')
        t2 = p.type()
        b = p.value(t2)
        return ('select', dst, ct, c, t, a, b)
    if op == 'phi':
        while p.peek()[1] in FMF:
            p.next()
        t = p.type()
        inc = {}
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            lab = p.next()[1]
            p.expect(']')
            inc[lab] = v
            if not p.accept(','):
                break
        return ('phi', dst, t, inc)
    if op == 'br':
        if p.accept('label'):
            return ('br', None, p.next()[1])
        t = p.type()
        c = p.value(t)
        p.expect(',')
        p.expect('label')
        a = p.next()[1]
        p.expect(',')
        p.expect('label')
        b = p.next()[1]
        return ('cbr', None, c, a, b)
    if op == 'switch':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.expect('label')
        d = p.next()[1]
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = p.type()
            cv = p.value(ct)
            p.expect(',')
            p.expect('label')
            cases.append((cv[1], p.next()[1]))
        return ('switch', None, t, v, d, cases)
    if op == 'ret':
        t = p.type()
        if t == VOID:
            return ('ret', None, t, None)
        return ('ret', None, t, p.value(t))
    if op == 'unreachable':
        return ('unreachable', None)
    if op == 'resume':
        return ('resume', None)
    if op in ('call', 'invoke'):
        fl = []
        while p.peek()[1] in FMF:
            fl.append(p.next()[1])
        while p.peek()[1] in CCONV:
            p.next()
        p.skip_attrs()
        t = p.type()
        if t[0] == 'fn':
            t = t[1]
        callee = p.peek()
        if callee[0] == 'word' and callee[1] == 'asm':
            return ('asm', dst, s)
        if callee[0] in ('glob', 'loc'):
            p.next()
        else:
            raise Unsupported('callee %r' % (callee,))
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                at = p.type()
                attrs = p.skip_attrs()
                if at == ('metadata',):
                    # metadata operand: skip to , or )
                    d = 0
                    while True:
                        kk, ss = p.peek()
                        if d == 0 and ss in (',', ')'):
                            break
                        if ss in '([{':
                            d += 1
                        elif ss in ')]}':
                            d -= 1
                        p.next()
                    args.append((at, ('meta',), attrs))
                else:
                    args.append((at, p.value(at), attrs))
                if p.accept(','):
                    continue
                p.expect(')')
                break
        normal = None
        if op == 'invoke':
            while not p.at('to'):
                if p.eof():
                    raise Unsupported('invoke')
                p.next()
            p.expect('to')
            p.expect('label')
            normal = p.next()[1]
        return ('call', dst, t, callee, args, fl, normal)
    if op == 'load':
        while p.peek()[1] in ('volatile', 'atomic'):
            p.next()
        t = p.type()
        p.expect(',')
        pt = p.type()
        a = p.value(pt)
        al = 1
        while p.accept(','):
            if p.accept('align'):
                al = int(p.next()[1])
            else:
                p.next()
        return ('load', dst, t, a, al)
    if op == 'store':
        while p.peek()[1] in ('volatile', 'atomic'):
            p.next()
        t = p.type()
        v = p.value(t)
        p.expect(',')
        pt = p.type()
        a = p.value(pt)
        al = 1
        while p.accept(','):
            if p.accept('align'):
                al = int(p.next()[1])
            else:
                p.next()
        return ('store', None, t, v, a, al)
    if op == 'alloca':
        p.accept('inalloca')
        t = p.type()
        al = 1
        cnt = None
        while p.accept(','):
            if p.accept('align'):
                al = int(p.next()[1])
            else:
                ct = p.type()
                cnt = p.value(ct)
        return ('alloca', dst, t, al, cnt)
    if op == 'getelementptr':
        inb = False
        while p.peek()[1] in ('inbounds', 'nuw', 'nusw'):
            inb = inb or p.peek()[1] == 'inbounds'
            p.next()
        bt = p.type()
        p.expect(',')
        ops = []
        while True:
            t = p.type()
            ops.append((t, p.value(t)))
            if not p.accept(','):
                break
        return ('gep', dst, bt, ops, inb)
    if op == 'extractelement':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        it = p.type()
        i = p.value(it)
        return ('extractelement', dst, t, v, it, i)
    if op == 'insertelement':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        et = p.type()
        e = p.value(et)
        p.expect(',')
        it = p.type()
        i = p.value(it)
        return ('insertelement', dst, t, v, et, e, it, i)
    if op == 'shufflevector':
        t = p.type()
        a = p.value(t)
        p.expect(',')
        t2 = p.type()
        b = p.value(t2)
        p.expect(',')
        mt = p.type()
        mk = p.value(mt)
        return ('shufflevector', dst, t, a, b, mt, mk)
    if op == 'extractvalue':
        t = p.type()
        v = p.value(t)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()[1]))
        return ('extractvalue', dst, t, v, idx)
    if op == 'insertvalue':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        et = p.type()
        e = p.value(et)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()[1]))
        return ('insertvalue', dst, t, v, et, e, idx)
    if op == 'freeze':
        t = p.type()
        v = p.value(t)
        return ('freeze', dst, t, v)
    if op == 'landingpad':
        return ('landingpad', dst)
    if op in ('cleanup', 'catch', 'filter'):
        return None
    if op == 'fence':
        return ('nop', None)
    raise Unsupported('instruction %s' % s[:80])


class Module:
    def __init__(self, text=None):
        self.funcs = {}
        self.decls = {}
        self.globals = {}
        self._named = {}
        self._named_raw = {}
        self.attrgroups = {}
        self.aliases = {}
        if text is not None:
            self.index(text)

    def index(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('define '):
                m = re.search(r'(@(?:"[^"]*"|[-\w$.]+))\(', ln)
                name = m.group(1)
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.funcs[name] = Func(name, ln, lines[i + 1:j], self)
                i = j + 1
                continue
            if ln.startswith('declare '):
                m = re.search(r'(@(?:"[^"]*"|[-\w$.]+))\(', ln)
                self.decls[m.group(1)] = ln
            elif ln.startswith('@'):
                m = re.match(r'(@(?:"[^"]*"|[-\w$.]+)) = (.*)$', ln)
                a = re.search(r'\balias\b.*, ptr (@(?:"[^"]*"|[-\w$.]+))', m.group(2))
                if a:
                    self.aliases[m.group(1)] = a.group(1)
                else:
                    self.globals[m.group(1)] = [m.group(2), None]
            elif ln.startswith('%') and ' = type ' in ln:
                m = re.match(r'(%(?:"[^"]*"|[-\w$.]+)) = type (.*)$', ln)
                self._named_raw[m.group(1)] = m.group(2)
            elif ln.startswith('attributes #'):
                m = re.match(r'attributes (#\d+) = \{(.*)\}', ln)
                self.attrgroups[m.group(1)] = m.group(2)
            i += 1

    def is_noreturn_decl(self, name):
        ln = self.decls.get(name)
        if ln is None:
            f = self.funcs.get(name)
            if f is None:
                return False
            ln = f.header
        m = re.search(r'(#\d+)\s*(?:\{.*)?$', ln)
        return 'noreturn' in ln or (m is not None and 'noreturn' in self.attrgroups.get(m.group(1), ''))

    def named(self, name):
        t = self._named.get(name)
        if t is None:
            raw = self._named_raw.get(name)
            if raw is None or raw == 'opaque':
                raise Unsupported('named type ' + name)
            t = P(tokenize(raw), self).type()
            self._named[name] = t
        return t

    def global_def(self, name):
        g = self.globals.get(name)
        if g is None:
            return None
        if g[1] is None:
            p = P(tokenize(g[0]), self)
            const = False
            ext = False
            while True:
                k, s = p.peek()
                if s in ('constant', 'global'):
                    const = s == 'constant'
                    p.next()
                    break
                if s in ('external',):
                    ext = True
                p.next()
                if p.at('('):
                    p.skip_paren()
                if p.eof():
                    raise Unsupported('global ' + name)
            t = p.type()
            v = None
            if not ext:
                v = p.value(t)
            al = 1
            while p.accept(','):
                if p.accept('align'):
                    al = int(p.next()[1])
                else:
                    p.next()
            g[1] = (t, v, const, al)
        return g[1]
