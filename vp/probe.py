"""Tabulate the conversion impls of the pinned API (run once; the table is committed as api_pairs.json)."""
import json, os, re
from . import build
from .types import *

ARCH = [('__m128', 16), ('__m128i', 16), ('__m128d', 16), ('__m256', 32), ('__m256i', 32), ('__m256d', 32), ('__m512', 64), ('__m512i', 64), ('__m512d', 64)]


def main():
    dd, rl, irs = build.deps('base')
    cands = []
    for a in ALL:
        for b in ALL:
            if a is b:
                continue
            if a.n == b.n:
                cands.append(('from', a.name, b.name))
                cands.append(('cast', a.name, b.name))
            if a.size == b.size:
                cands.append(('bits', a.name, b.name))
    for nm, s in ARCH:
        for t in ALL:
            if t.size == s:
                cands.append(('bits', t.name, nm))
                cands.append(('bits', nm, t.name))
    text = build.HEAD + 'use core::arch::x86_64::*;\n'
    base = text.count('\n') + 1
    for kd, d, s in cands:
        tr = {'from': 'From', 'cast': 'FromCast', 'bits': 'FromBits'}[kd]
        fn = {'from': 'from', 'cast': 'from_cast', 'bits': 'from_bits'}[kd]
        text += 'pub fn f%d(x: %s) -> %s { <%s as %s<%s>>::%s(x) }\n' % (cands.index((kd, d, s)), s, d, d, tr, s, fn)
    p = os.path.join(build.BUILD, 'probe.rs')
    open(p, 'w').write(text)
    r = build.rustc('base', p, os.path.join(build.BUILD, 'probe'), ['llvm-ir'], dd, rl)
    bad = set()
    for m in re.finditer(r'^(?:[^\s:]*\.rs):(\d+):\d+: (error.*)$', r.stdout, re.M):
        bad.add(int(m.group(1)) - base)
    out = {'from': [], 'cast': [], 'bits': []}
    for i, (kd, d, s) in enumerate(cands):
        if i not in bad:
            out[kd].append([d, s])
    print(len(cands), len(bad), {k: len(v) for k, v in out.items()})
    json.dump(out, open(os.path.join(build.VERIF, 'vp/specs/api_pairs.json'), 'w'), separators=(',', ':'))


if __name__ == '__main__':
    main()
