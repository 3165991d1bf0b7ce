"""Driver:  python3-vt -m vp.check PROPERTY [--tier quick|thorough]"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

from . import build
from .build import BuildError

VERIF = build.VERIF


def log(*a):
    print(*a, flush=True)


SOFT = 330.0      # seconds after which the quick tier hurries
HARD = 820.0      # and after which it reports what it has


def load(pid, tier):
    m = importlib.import_module('vp.specs.' + pid.lower())
    return m


def task(job):
    pid, tier, cfg, shard, names, out, budget, seed, t0 = job
    nund = 0
    res = []
    info = {'cfg': cfg, 'shard': shard, 'error': None, 'lost': {}, 'results': res}
    try:
        m = load(pid, tier)
        fns = {f.name: f for f in m.fns(tier, cfg)}
        fns = [fns[n] for n in names]
        ll, bad = build.compile_shard(cfg, fns, out, getattr(m, 'PRELUDE', ''))
        info['lost'] = bad
        from .llir import Module
        from . import verify as V
        mods = [Module(open(ll).read())]
        dd, rl, irs = build.deps(cfg)
        mods += [Module(open(p).read()) for p in irs]
        externs = getattr(m, 'EXTERNS', None)
        for f in fns:
            if f.name in bad:
                continue
            if f.kind == 'custom':
                r = f.decide(cfg, mods, out, seed)
            else:
                # functions the verifier cannot answer get shorter and shorter turns, so
                # that the whole check answers in its time
                el = (time.time() - t0) / (SOFT if tier == 'quick' else 20 * SOFT)
                q = 1 if nund < 2 and el < 1 else 4 if nund < 6 and el < 1.5 else 10
                r = None
                if el < 2:
                    # a short turn first; what it leaves open is tried on concrete inputs
                    # (a disagreement needs no proof) before the long turn
                    r = V.verify(f, cfg, mods, timeout=min(15, budget / q), externs=externs, smt_ms=min(5000, 30000 // q))
                    if r.status == 'undecided' and not r.vacuous:
                        probe(r, f, cfg, out, seed, tier)
                        if r.status == 'undecided' and q < 10:
                            b = r.bounded
                            r = V.verify(f, cfg, mods, timeout=budget / q, externs=externs, smt_ms=30000 // q)
                            r.bounded = b
                else:
                    r = V.Result(f, cfg)
                    r.status, r.reason = 'undecided', 'time limit of the check reached'
                nund += r.status == 'undecided'
            finish(r, f, cfg, out, seed, tier)
            res.append(summ(r, f))
            if r.status == 'failed' and r.witness is not None and tier == 'quick':
                # a reproduced violation decides the check
                break
    except BuildError as e:
        info['error'] = 'build: ' + str(e)
    except Exception:
        info['error'] = traceback.format_exc()
    return info


def summ(r, f):
    return {'fn': r.fn, 'cfg': r.cfg, 'status': r.status, 'reason': r.reason, 'obligations': r.obligations, 'norm': r.by_norm,
            'smt': r.by_smt, 'paths': r.paths, 'instr': r.instr, 'solver_s': r.solver_s, 'failed': r.failed, 'bounded': r.bounded,
            'vacuous': r.vacuous, 'witness': getattr(r, 'witness', None), 'api': f.api, 'wall': getattr(r, 'wall', 0), 'body': f.body, 'uf': r.uf, 'conform': getattr(r, 'conform', 0)}


def finish(r, f, cfg, out, seed, tier):
    """replay a counterexample, or fall back to a bounded check"""
    from . import replay as R
    r.witness = getattr(r, 'witness', None)
    r.conform = 0
    if f.kind == 'custom':
        return
    if r.status == 'proved':
        if tier == 'thorough':
            # validate the IR semantics and the back end: the machine code must agree with
            # the contract it was proved against
            try:
                w, r.conform = R.fuzz(f, cfg, out, 8, seed)
            except Exception:
                r.reason += ' | conformance run error: ' + traceback.format_exc()[-400:]
                return
            if w is not None:
                r.status = 'failed'
                r.failed = ('conformance: obligations discharged, but the compiled code disagrees: ' + w[1], w[0])
                r.witness = {'input': w[0], 'what': w[1], 'observed': w[2]}
        return
    n = 400 if tier == 'thorough' else 120
    if r.status == 'failed' and r.witness is not None:
        return
    try:
        if r.status == 'failed':
            w, k = R.try_inputs(f, cfg, out, [r.failed[1]])
            if w is None:
                w, k2 = R.fuzz(f, cfg, out, n, seed)
            if w is not None:
                r.witness = {'input': w[0], 'what': w[1], 'observed': w[2]}
        elif not r.vacuous and not r.bounded:
            probe(r, f, cfg, out, seed, tier)
    except Exception:
        r.reason += ' | replay error: ' + traceback.format_exc()[-400:]


def probe(r, f, cfg, out, seed, tier):
    """the bounded check: the compiled code on concrete inputs, against the contract"""
    from . import replay as R
    try:
        w, r.bounded = R.fuzz(f, cfg, out, 400 if tier == 'thorough' else 120, seed)
    except Exception:
        r.reason += ' | replay error: ' + traceback.format_exc()[-400:]
        return
    if w is not None:
        r.status = 'failed'
        r.failed = ('bounded check: ' + w[1], w[0])
        r.witness = {'input': w[0], 'what': w[1], 'observed': w[2]}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default=None, help='substring of wrapper names (debugging; evidence is not written)')
    ap.add_argument('--cfg', default=None)
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    pid = a.pid
    t0 = time.time()
    m = load(pid, tier)
    cfgs = [a.cfg] if a.cfg else m.cfgs(tier)
    work = os.path.join(build.BUILD, 'w-%s-%s' % (pid, tier))
    import shutil
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work, exist_ok=True)
    # dependencies first, in parallel
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as tp:
        try:
            list(tp.map(build.deps, cfgs))
        except BuildError as e:
            log('ERROR: the tree under verification does not build')
            log(str(e))
            sys.exit(2)
    tdep = time.time() - t0
    jobs = []
    budget = 60.0 if tier == 'quick' else 240.0
    total = 0
    for cfg in cfgs:
        fns = m.fns(tier, cfg)
        names = [f.name for f in fns]
        assert len(set(names)) == len(names), [n for n in names if names.count(n) > 1][:5]
        if a.only:
            names = [n for n in names if a.only in n]
        if not names:
            continue
        total += len(names)
        k = max(1, min(24, (len(names) + 39) // 40))
        if len(names) >= 8:
            k = max(k, 8)
        for i in range(k):
            jobs.append((pid, tier, cfg, i, names[i::k], os.path.join(work, '%s_%d' % (cfg, i)), budget, seed, t0))
    m.TOTAL = total
    lost, errors, results = {}, [], []
    stop = t0 + HARD if tier == 'quick' else None
    with mp.get_context('fork').Pool(a.j, maxtasksperchild=4) as pool:
        it = pool.imap_unordered(task, jobs)
        while True:
            try:
                info = it.next(max(1.0, stop - time.time()) if stop else None)
            except StopIteration:
                break
            except mp.TimeoutError:
                log('STOPPED: %d of %d contracts without answer' % (total - len(results), total))
                pool.terminate()
                break
            if info['error']:
                errors.append((info['cfg'], info['shard'], info['error']))
            for n, e in info['lost'].items():
                lost[(info['cfg'], n)] = e
            results += info['results']
            if stop and any(r['status'] == 'failed' and r['witness'] for r in info['results']):
                stop = min(stop, time.time() + 30)
    lem = []
    if hasattr(m, 'lemmas') and not a.only:
        from .lemma import prove_all
        lem = prove_all(m.lemmas(tier))
    report(pid, tier, seed, m, cfgs, results, lost, errors, lem, total, t0, tdep, a)


def report(pid, tier, seed, m, cfgs, results, lost, errors, lem, total, t0, tdep, a):
    proved = [r for r in results if r['status'] == 'proved']
    failed = [r for r in results if r['status'] == 'failed']
    und = [r for r in results if r['status'] == 'undecided']
    vac = [r for r in und if r['vacuous']]
    badlem = [x for x in lem if x['status'] != 'proved']
    ob = sum(r['obligations'] for r in results) + len(lem)
    dis = sum(r['norm'] + r['smt'] for r in results) + len(lem) - len(badlem)
    for r in sorted(results, key=lambda r: -r['wall'])[:3 if not a.v else 15]:
        log('slowest: %s [%s] %.1fs %d paths %s' % (r['fn'], r['cfg'], r['wall'], r['paths'], r['status']))
    for r in und:
        log('UNDECIDED %s [%s]: %s; bounded check on %s inputs found no disagreement' % (r['fn'], r['cfg'], r['reason'], r['bounded']))
    log('property %s (%s): %d contracts, %d proved, %d failed, %d undecided; %d/%d obligations discharged; %d lemmas; configurations %s; %.1fs'
        % (pid, tier, len(results), len(proved), len(failed), len(und), dis, ob, len(lem), ','.join(cfgs), time.time() - t0))
    if errors:
        for c, s, e in errors[:3]:
            log('ERROR in %s shard %s: %s' % (c, s, e))
    known = []
    rp = None
    viol = []
    if failed or lost:
        d = os.path.join(VERIF, 'replays', pid)
        os.makedirs(d, exist_ok=True)
        failed.sort(key=lambda r: (r['witness'] is None, r['cfg'] != 'base', r['fn']))
        for r in failed[:20]:
            p = os.path.join(d, '%s.%s.json' % (r['fn'], r['cfg']))
            json.dump({'property': pid, 'function': r['fn'], 'api': r['api'], 'wrapper': r['body'], 'configuration': r['cfg'], 'failed_obligation': r['failed'][0],
                       'counterexample': r['failed'][1], 'replay': r['witness'], 'verifier': r['reason'],
                       'rerun': 'cd /verif && python3-vt -m vp.check %s --only %s --cfg %s' % (pid, r['fn'], r['cfg'])}, open(p, 'w'), indent=1, default=str)
            viol.append((p, r['witness'] is not None, r['fn'], r['failed'][0], r['witness']['what'] if r['witness'] else ''))
        for (cfg, n), e in list(lost.items())[:20]:
            p = os.path.join(d, '%s.%s.json' % (n, cfg))
            json.dump({'property': pid, 'function': n, 'configuration': cfg, 'failed_obligation': 'the public API this contract is about no longer compiles',
                       'verifier': e}, open(p, 'w'), indent=1)
            viol.append((p, False, n, 'API no longer compiles: ' + e, ''))
    for x in badlem:
        log('LEMMA not proved: %s (%s)' % (x['name'], x['status']))
    if not a.only and not a.cfg:
        ev(pid, tier, seed, m, cfgs, results, lem, ob, dis, viol, t0, tdep, proved, failed, und)
    for f in getattr(m, 'known', lambda r: [])(results):
        log('KNOWN-FINDING: property=%s %s' % (pid, f))
    if viol:
        # one line per property suffices; prefer a replayed one
        viol.sort(key=lambda v: not v[1])
        for p, rep, fn, lab, what in viol[:8]:
            log('  failed: %s: %s %s' % (fn, lab, '(replayed: %s)' % what if rep else ''))
        p, rep, fn, lab, what = viol[0]
        log('VIOLATION property=%s replay=%s%s' % (pid, p, '' if rep else ' no-failing-input-found'))
        sys.exit(1)
    if errors or badlem or vac or (total and not results):
        log('ERROR: the check could not be carried out completely')
        sys.exit(2)
    sys.exit(0)


def ev(pid, tier, seed, m, cfgs, results, lem, ob, dis, viol, t0, tdep, proved, failed, und):
    apis = sorted(set(r['api'] for r in results))
    d = {'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(m, 'LEVEL', 'proof'),
         'coverage': {
             'obligations': ob, 'discharged': dis,
             'checker_cmd': 'python3-vt -m vp.check %s --tier %s' % (pid, tier),
             'trusted_base': TRUST + getattr(m, 'TRUST', []),
             'functions_under_contract': len(results),
             'contracts_not_reached_in_time': getattr(m, 'TOTAL', len(results)) - len(results),
             'functions_proved': len(proved), 'functions_undecided': len(und), 'functions_failed': len(failed),
             'discharged_by_normaliser': sum(r['norm'] for r in results),
             'discharged_by_z3': sum(r['smt'] for r in results),
             'lemmas': [{'name': x['name'], 'status': x['status'], 's': round(x['s'], 3)} for x in lem],
             'paths': sum(r['paths'] for r in results),
             'ir_instructions_executed': sum(r['instr'] for r in results),
             'solver_seconds': round(sum(r['solver_s'] for r in results), 2),
             'configurations': cfgs,
             'api_functions': apis[:400],
             'bounded_stand_ins': [{'fn': r['fn'], 'cfg': r['cfg'], 'why': r['reason'], 'inputs': r['bounded']} for r in und][:200],
             'conformance_runs_of_proved_functions': sum(r['conform'] for r in results),
             'build_seconds': round(tdep, 1),
             'samples': [{'fn': r['fn'], 'cfg': r['cfg'], 'obligations': r['obligations'], 'paths': r['paths'], 'wrapper': r['body']} for r in proved[:3]],
         },
         'wall_s': round(time.time() - t0, 2),
         'assumptions': ASSUME + getattr(m, 'ASSUME', []),
         'violations': len(viol)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(d, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1, default=str)


TRUST = [
    'rustc/LLVM 16 front end and middle end produce the IR that is verified; the verified text is that IR, emitted from /repo on every run',
    'the LLVM IR semantics implemented in vp/sym.py and vp/intrin.py',
    'z3 (python z3-solver) and its simplifier',
    'LLVM x86-64 back end (IR to machine code)',
]
ASSUME = [
    'load metadata (!range, !noundef, !nonnull) and parameter attributes (noalias, dereferenceable) are not re-proved',
    'distinct wrapper arguments do not overlap',
    'only x86-64 configurations are decided; code compiled only for other architectures or with the optional core_arch dependency is not; the optional SLEEF back end is decided in the sleef* configurations (P28, P29), with the functions of SLEEF assumed to be lane-wise',
]

if __name__ == '__main__':
    main()
