"""Compile /repo's working tree and the generated contract wrappers to LLVM IR
with the toolchain the repository itself is built with."""
import fcntl
import glob
import hashlib
import os
import re
import shutil
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.environ.get('VP_BUILD', os.path.join(VERIF, 'build'))

CFGS = {
    'base': [],
    'ssse3': ['-Ctarget-feature=+ssse3'],
    'sse42': ['-Ctarget-feature=+sse4.2'],
    'avx': ['-Ctarget-feature=+avx'],
    'avx2': ['-Ctarget-feature=+avx2'],
    'fma': ['-Ctarget-feature=+avx2,+fma,+bmi1,+bmi2,+lzcnt,+popcnt'],
    'dbg': ['-Cdebug-assertions=on', '-Coverflow-checks=on'],
    'o1': ['-Copt-level=1'],
    'nosse': ['-Ctarget-feature=-mmx,-sse,-sse2,+soft-float'],
    'avx512': ['-Ctarget-feature=+avx512f,+avx512bw,+avx512vl,+avx512dq'],
    # with the optional SLEEF math back end
    'sleef': [],
    'sleef42': ['-Ctarget-feature=+sse4.2'],
    'sleefavx': ['-Ctarget-feature=+avx'],
    'sleefavx2': ['-Ctarget-feature=+avx2'],
}
SLEEF = ['sleef', 'sleef42', 'sleefavx', 'sleefavx2']
TRIPLE = 'x86_64-unknown-linux-gnu'
CROSS = ('nosse',)      # flags that must not reach build scripts
CPU = {'sleef': '', 'sleef42': 'sse4_2', 'sleefavx': 'avx', 'sleefavx2': 'avx2', 'nosse': '', 'base': '', 'dbg': '', 'o1': '', 'ssse3': 'ssse3', 'sse42': 'sse4_2', 'avx': 'avx', 'avx2': 'avx2', 'fma': 'avx2 fma bmi1 bmi2 abm popcnt',
       'avx512': 'avx512f avx512bw avx512vl avx512dq'}


class BuildError(Exception):
    pass


def env():
    e = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'LANG', 'TMPDIR')}
    e['HOME'] = '/root'
    e['PATH'] = '/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    e['RUSTUP_TOOLCHAIN'] = toolchain()
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_INCREMENTAL'] = '0'
    e['CARGO_TERM_COLOR'] = 'never'
    return e


def toolchain():
    try:
        m = re.search(r'RUSTUP_TOOLCHAIN=(\S+)', open('/opt/vp/env.sh').read())
        if m:
            return m.group(1)
    except OSError:
        pass
    return 'nightly-2023-07-30'


def repo_hash():
    h = hashlib.sha256()
    files = []
    for root, ds, fs in os.walk(os.path.join(REPO, 'src')):
        ds.sort()
        files += [os.path.join(root, f) for f in fs]
    files += [os.path.join(REPO, f) for f in ('Cargo.toml', 'build.rs', 'rust-toolchain')]
    files += [os.path.join(VERIF, h, f) for h in ('harness', 'harness_sleef') for f in ('Cargo.toml', 'Cargo.lock', 'src/lib.rs')]
    files += [os.path.join(VERIF, 'harness_sleef/sleef-sys', f) for f in ('Cargo.toml', 'src/lib.rs')]
    for f in sorted(files):
        if os.path.exists(f):
            h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    return h.hexdigest()[:16]


def cpu_ok(cfg):
    need = CPU[cfg].split()
    if not need:
        return True
    try:
        fl = set(re.search(r'^flags\s*:(.*)$', open('/proc/cpuinfo').read(), re.M).group(1).split())
    except Exception:
        return False
    return all(n in fl for n in need)


def deps(cfg):
    """build packed_simd in this configuration; returns (depsdir, rlib, [ir files])"""
    key = repo_hash()
    root = os.path.join(BUILD, 'dep-' + key)
    os.makedirs(root, exist_ok=True)
    # drop stale caches
    for d in glob.glob(os.path.join(BUILD, 'dep-*')):
        if d != root and os.path.basename(d) != 'dep-' + key:
            shutil.rmtree(d, ignore_errors=True)
    tgt = os.path.join(root, cfg)
    lock = open(os.path.join(root, cfg + '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        done = os.path.join(tgt, 'DONE')
        if not os.path.exists(done):
            shutil.rmtree(tgt, ignore_errors=True)
            src = os.path.join(root, 'crate-' + cfg)
            if not os.path.exists(os.path.join(src, 'src/lib.rs')):
                tmp = src + '.tmp'
                shutil.rmtree(tmp, ignore_errors=True)
                os.makedirs(os.path.join(tmp, 'src'))
                h = os.path.join(VERIF, 'harness_sleef' if cfg in SLEEF else 'harness')
                ct = open(os.path.join(h, 'Cargo.toml')).read().replace('path = "/repo"', 'path = "%s"' % REPO).replace('path = "/verif/', 'path = "%s/' % VERIF)
                open(os.path.join(tmp, 'Cargo.toml'), 'w').write(ct)
                shutil.copy(os.path.join(h, 'Cargo.lock'), tmp)
                shutil.copy(os.path.join(h, 'src/lib.rs'), os.path.join(tmp, 'src'))
                try:
                    os.rename(tmp, src)
                except OSError:
                    shutil.rmtree(tmp, ignore_errors=True)
            e = env()
            e['RUSTFLAGS'] = ' '.join(['--emit=llvm-ir', '-Ccodegen-units=1', '--cap-lints=allow'] + CFGS[cfg])
            r = subprocess.run(['cargo', 'build', '--release', '--offline', '--target-dir', tgt] + (['--target', TRIPLE] if cfg in CROSS else []), cwd=src,
                               env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise BuildError('cargo build failed (%s):\n%s' % (cfg, r.stdout[-6000:]))
            open(done, 'w').close()
    finally:
        lock.close()
    dd = os.path.join(tgt, TRIPLE if cfg in CROSS else '', 'release/deps')
    rl = glob.glob(os.path.join(dd, 'libpacked_simd-*.rlib'))
    irs = glob.glob(os.path.join(dd, 'packed_simd-*.ll')) + glob.glob(os.path.join(dd, 'num_traits-*.ll'))
    if len(rl) != 1:
        raise BuildError('expected one packed_simd rlib, got %r' % rl)
    return dd, rl[0], irs


HEAD = '''#![feature(c_unwind)]
#![allow(unused, improper_ctypes_definitions, non_snake_case, non_camel_case_types, deprecated)]
extern crate packed_simd;
use packed_simd::*;
'''

CALL = '''
#[no_mangle] pub unsafe extern "C" fn vp_call(f: *const (), n: usize, a: *const usize) -> i32 {
    use core::mem::transmute as t;
    std::panic::set_hook(Box::new(|_| {}));
    let a = core::slice::from_raw_parts(a, n);
    let r = std::panic::catch_unwind(|| {
        match n {
            1 => (t::<_, unsafe extern "C-unwind" fn(usize)>(f))(a[0]),
            2 => (t::<_, unsafe extern "C-unwind" fn(usize,usize)>(f))(a[0],a[1]),
            3 => (t::<_, unsafe extern "C-unwind" fn(usize,usize,usize)>(f))(a[0],a[1],a[2]),
            4 => (t::<_, unsafe extern "C-unwind" fn(usize,usize,usize,usize)>(f))(a[0],a[1],a[2],a[3]),
            5 => (t::<_, unsafe extern "C-unwind" fn(usize,usize,usize,usize,usize)>(f))(a[0],a[1],a[2],a[3],a[4]),
            6 => (t::<_, unsafe extern "C-unwind" fn(usize,usize,usize,usize,usize,usize)>(f))(a[0],a[1],a[2],a[3],a[4],a[5]),
            _ => panic!("arity"),
        }
    });
    if r.is_ok() { 0 } else { 1 }
}
'''


def rustc(cfg, src, out, emit, dd, rl, extra=()):
    src, out, dd, rl = (os.path.abspath(x) for x in (src, out, dd, rl))
    args = ['rustc', src, '--edition', '2021', '--crate-name', re.sub(r'\W', '_', os.path.basename(out)), '--crate-type', 'cdylib' if 'link' in emit else 'rlib',
            '-Copt-level=3', '-Ccodegen-units=1', '-Cpanic=unwind', '--cap-lints=allow', '--error-format=short',
            '-L', 'dependency=' + dd, '--extern', 'packed_simd=' + rl] + CFGS[cfg] + list(extra)
    for e in emit:
        args += ['--emit', '%s=%s.%s' % (e, out, {'llvm-ir': 'll', 'link': 'so'}[e])]
    # rustc leaves its intermediate files in its working directory: a private
    # one, or two checks running at once would overwrite each other's
    tmpd = os.path.abspath(out) + '.d'
    os.makedirs(tmpd, exist_ok=True)
    try:
        return subprocess.run(args, env=env(), cwd=tmpd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        shutil.rmtree(tmpd, ignore_errors=True)


def compile_shard(cfg, fns, out, prelude=''):
    """compile wrappers; returns (path of .ll, {fn name: compile error})"""
    dd, rl, irs = deps(cfg)
    fns = list(fns)
    bad = {}
    for attempt in range(6):
        text = HEAD + prelude + CALL
        spans = []
        line = text.count('\n') + 1
        for f in fns:
            s = f.rust()
            nl = s.count('\n')
            spans.append((line, line + nl, f))
            line += nl
            text += s
        open(out + '.rs', 'w').write(text)
        r = rustc(cfg, out + '.rs', out, ['llvm-ir'], dd, rl)
        if r.returncode == 0:
            return out + '.ll', bad
        errs = {}
        for m in re.finditer(r'^([^\s:]*\.rs):(\d+):\d+: (error.*)$', r.stdout, re.M):
            if os.path.basename(m.group(1)) != os.path.basename(out + '.rs'):
                continue
            ln = int(m.group(2))
            for a, b, f in spans:
                if a <= ln < b:
                    errs.setdefault(f.name, m.group(3))
        if not errs:
            # an error inside the library that only shows when an instance is
            # generated: find the wrappers that ask for it
            errs = bisect(cfg, fns, out, prelude, dd, rl)
            if not errs:
                raise BuildError('wrapper compilation failed:\n' + r.stdout[-4000:])
        bad.update(errs)
        fns = [f for f in fns if f.name not in errs]
    raise BuildError('wrapper compilation did not converge:\n' + r.stdout[-4000:])


def bisect(cfg, fns, out, prelude, dd, rl):
    text = HEAD + prelude + CALL + ''.join(f.rust() for f in fns)
    p = out + '_b'
    open(p + '.rs', 'w').write(text)
    r = rustc(cfg, p + '.rs', p, ['llvm-ir'], dd, rl)
    if r.returncode == 0:
        return {}
    if len(fns) == 1:
        m = re.search(r'(error.*)', r.stdout)
        return {fns[0].name: m.group(1) if m else r.stdout[-300:]}
    if not fns:
        return {}
    h = len(fns) // 2
    e = bisect(cfg, fns[:h], out, prelude, dd, rl)
    e.update(bisect(cfg, fns[h:], out, prelude, dd, rl))
    return e


def link_shard(cfg, out):
    so = out + '.so'
    if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(out + '.rs'):
        dd, rl, irs = deps(cfg)
        r = rustc(cfg, out + '.rs', out, ['link'], dd, rl)
        if r.returncode:
            raise BuildError('link failed: ' + r.stdout[-2000:])
    return so
