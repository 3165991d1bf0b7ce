ALLCFG = ['base', 'ssse3', 'sse42', 'avx', 'avx2', 'fma', 'avx512', 'dbg', 'o1']


def to_bytes(xs, bits):
    """lanes -> bytes, memory order"""
    import z3
    out = []
    for x in xs:
        if bits == 8:
            out.append(x)
        else:
            out += [z3.Extract(8 * i + 7, 8 * i, x) for i in range(bits // 8)]
    return out


def from_bytes(bs, bits):
    import z3
    n = bits // 8
    if n == 1:
        return list(bs)
    return [z3.Concat(*reversed(bs[i:i + n])) for i in range(0, len(bs), n)]


def rebits(xs, sb, db):
    return list(xs) if sb == db else from_bytes(to_bytes(xs, sb), db)


def pairs(kind):
    import json
    import os
    return json.load(open(os.path.join(os.path.dirname(__file__), 'api_pairs.json')))[kind]
