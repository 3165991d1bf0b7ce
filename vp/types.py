"""The public vector types (names only; everything else is stated by the contracts)."""


class VT:
    """n lanes of `bits` bits; kind in i u f m p b (b = bool)"""

    def __init__(self, kind, bits, n, name, elem, scalar=False, align=None, lane_name=None):
        self.kind = kind
        self.bits = bits
        self.n = n
        self.name = name
        self.elem = elem
        self.scalar = scalar
        self.size = bits // 8 * n
        self.align = align if align is not None else (min(bits // 8, 8) if scalar else self.size)
        self.ealign = min(bits // 8, 8)

    @property
    def signed(self):
        return self.kind in 'im'

    def __repr__(self):
        return self.name


def _mk():
    out = []
    for bits, lanes in ((8, (2, 4, 8, 16, 32, 64)), (16, (2, 4, 8, 16, 32)), (32, (2, 4, 8, 16)), (64, (2, 4, 8)), (128, (1, 2, 4))):
        for n in lanes:
            for k in 'ium':
                out.append(VT(k, bits, n, '%s%dx%d' % (k, bits, n), '%s%d' % (k, bits)))
            if bits in (32, 64):
                out.append(VT('f', bits, n, 'f%dx%d' % (bits, n), 'f%d' % bits))
    for n in (2, 4, 8):
        for k in 'ium':
            out.append(VT(k, 64, n, '%ssizex%d' % (k, n), '%ssize' % k))
    return out


ALL = _mk()
BY = {t.name: t for t in ALL}
INTS = [t for t in ALL if t.kind in 'iu']
SINTS = [t for t in ALL if t.kind == 'i']
UINTS = [t for t in ALL if t.kind == 'u']
FLOATS = [t for t in ALL if t.kind == 'f']
MASKS = [t for t in ALL if t.kind == 'm']
NUM = INTS + FLOATS


def scalar(elem):
    if elem == 'bool':
        return VT('b', 8, 1, 'bool', 'bool', True)
    if elem in ('isize', 'usize', 'msize'):
        return VT(elem[0], 64, 1, elem, elem, True)
    return VT(elem[0], int(elem[1:]), 1, elem, elem, True)


def elem(t):
    return scalar(t.elem)


def array(t):
    """[T; N] with the element alignment"""
    return VT(t.kind, t.bits, t.n, '[%s; %d]' % (t.elem, t.n), t.elem, False, align=t.ealign)


def arrn(e, n):
    s = scalar(e)
    return VT(s.kind, s.bits, n, '[%s; %d]' % (e, n), e, False, align=s.ealign)


def mask_of(t):
    """the mask type that comparisons of t return"""
    if t.kind == 'm':
        return t
    if t.elem in ('isize', 'usize'):
        return BY['msizex%d' % t.n]
    return BY['m%dx%d' % (t.bits, t.n)]


def uint_of(t):
    if t.elem in ('isize', 'usize', 'msize'):
        return BY['usizex%d' % t.n]
    return BY['u%dx%d' % (t.bits, t.n)]


def ptrv(kind, n, t):
    """cptrxN<T> / mptrxN<T>; lanes are addresses"""
    return VT('p', 64, n, '%sx%d<%s>' % (kind, n, t), '*%s %s' % ('const' if kind == 'cptr' else 'mut', t))


def ptr1(v):
    return VT('p', 64, 1, v.elem, v.elem, True)


def ptra(v):
    return VT('p', 64, v.n, '[%s; %d]' % (v.elem, v.n), v.elem, False, align=8)
