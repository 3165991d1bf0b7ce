"""Decide one contract against one compiled function."""
import time
import z3
from . import fp
from .contract import Env, Spec, In, Out, InOut, Usize, Slice
from .llir import Unsupported, I1, PTR
from .sym import Exec, Obj, Ptr, State, bv, zb, por, POISON


class Result:
    def __init__(self, fn, cfg):
        self.fn = fn.name
        self.cfg = cfg
        self.status = None       # proved / failed / undecided
        self.reason = ''
        self.obligations = 0
        self.by_norm = 0         # discharged by the term normaliser
        self.by_smt = 0
        self.paths = 0
        self.instr = 0
        self.solver_s = 0.0
        self.failed = None       # (label, model assignment)
        self.bounded = None
        self.uf = False
        self.vacuous = False


def simp(t):
    return z3.simplify(t, bv_sort_ac=True, som=False)


def lane_goal(act, exp, bits):
    """act: (term, poison); exp: z3 term / int / callable"""
    x, p = act
    if p is True or x is None:
        return [('defined', z3.BoolVal(False))]
    g = []
    if p is not None:
        g.append(('defined', z3.Not(p)))
    x = bv(x, bits)
    if callable(exp):
        cand = getattr(exp, 'cand', None)
        if cand is not None and x.eq(cand):
            g.append(('value', None))     # the characterisation holds of this term by the lemmas
            return g
        c = exp(x)
        if isinstance(c, list):
            g += [(l, zb(y)) for l, y in c]
        else:
            g.append(('value', zb(c)))
    else:
        e = z3.BitVecVal(exp, bits) if isinstance(exp, int) else exp
        if x.eq(e):
            g.append(('value', None))
        else:
            g.append(('value', x == e))
    return g


def has_uf(ts):
    seen = set()
    st = list(ts)
    while st:
        t = st.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(t):
            if t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                return True
            st.extend(t.children())
    return False


def verify(fn, cfg, mods, timeout=60.0, externs=None, smt_ms=30000):
    r = Result(fn, cfg)
    t0 = time.time()
    end = t0 + 2 * timeout
    try:
        # states are merged where branches rejoin; only if that gives no answer,
        # every path is kept apart
        try:
            _verify(fn, cfg, mods, timeout, externs, smt_ms, r, merge=True, end=end)
            again = r.status == 'undecided' and not r.vacuous
        except Unsupported as e:
            again = 'paths' in str(e) or 'limit' in str(e) or 'undefined' in str(e)
            if not again:
                raise
        if again:
            r = Result(fn, cfg)
            _verify(fn, cfg, mods, timeout, externs, smt_ms, r, end=end + timeout)
    except Unsupported as e:
        r.status = 'undecided'
        r.reason = 'unsupported: ' + str(e)[:300]
    except z3.Z3Exception as e:
        r.status = 'undecided'
        r.reason = 'solver: ' + str(e)[:300]
    except RecursionError:
        r.status = 'undecided'
        r.reason = 'recursion'
    r.wall = time.time() - t0
    return r


def setup(fn, env, spec):
    """initial memory and arguments"""
    st = State()
    args = []
    objs = {}
    for a in fn.args:
        if isinstance(a, Usize):
            args.append((env[a.name], None))
        elif isinstance(a, Slice):
            esz = a.vt.bits // 8
            o = Obj(a.name, env.length[a.name] * z3.BitVecVal(esz, 64), a.vt.ealign, a.mut, base=env.base[a.name])
            objs[a.name] = o
            cells = {}
            for i, x in enumerate(env[a.name]):
                v = (x, None)
                for kk in range(esz):
                    cells[i * esz + kk] = (v, kk, esz)
            o.extra['limit'] = a.init * esz
            st.mem[o.oid] = cells
            args.append((Ptr(o, 0), None))
            args.append((env.length[a.name], None))
        else:
            o = Obj(a.name, a.vt.size, a.vt.align, type(a) is not In)
            objs[a.name] = o
            cells = {}
            if type(a) is not Out:
                esz = a.vt.bits // 8
                for i, x in enumerate(env[a.name]):
                    v = (x, None)
                    for kk in range(esz):
                        cells[i * esz + kk] = (v, kk, esz)
            st.mem[o.oid] = cells
            args.append((Ptr(o, 0), None))
    if fn.heap:
        st.heap = env.heap0
    return st, args, objs


def _verify(fn, cfg, mods, timeout, externs, smt_ms, r, max_paths=3000, merge=False, end=None):
    env = Env(fn)
    spec = fn.spec(env)
    req = env.requires + [zb(x) for x in spec.requires]
    s = z3.Solver()
    s.set('timeout', smt_ms)
    for q in req:
        s.add(q)
    ts = time.time()
    sat = s.check()
    if sat == z3.unsat:
        r.status = 'undecided'
        r.reason = 'vacuous: precondition unsatisfiable'
        r.vacuous = True
        return
    st, args, objs = setup(fn, env, spec)
    perm = None
    if fn.heap:
        lanes = spec.perm or []

        def perm(addr, n, align, write):
            ok = [z3.And(zb(g), addr == p) for (p, k, g, w) in lanes if k == n and (w or not write)]
            al = (addr & z3.BitVecVal(align - 1, 64)) == 0 if align > 1 else z3.BoolVal(True)
            return z3.And(z3.Or(*ok) if ok else z3.BoolVal(False), al)
    ex = Exec(mods, req, externs=externs, deadline=time.time() + timeout, heap_perm=perm, max_paths=max_paths, merge=merge)
    f = ex.find('@' + fn.name)
    if f is None:
        raise Unsupported('wrapper not found')
    finals = ex.run(f, args, st)
    r.paths = len(finals)
    r.instr = ex.instr
    if not finals and not ex.oblig:
        r.status = 'undecided'
        r.reason = 'vacuous: no feasible path'
        r.vacuous = True
        return
    groups = []      # (pc, [(label, goal)])
    for pc, c, label in ex.oblig:
        groups.append((pc, [('safety: ' + label, c)]))
    panics = zb(spec.panics)
    may = zb(spec.may_panic) if spec.may_panic is not None else None
    for fs in finals:
        goals = []
        if fs.outcome == 'panic':
            goals.append(('panics only when specified', z3.Or(panics, may) if may is not None else panics))
            for a in fn.args:
                if not (isinstance(a, Slice) and a.mut):
                    continue
                # frame: a slice is unchanged by a call that panics
                o = objs[a.name]
                esz = a.vt.bits // 8
                if any(not (0 <= kk < o.extra['limit']) for kk in fs.mem[o.oid]):
                    goals.append(('frame on panic: %s beyond lane %d' % (a.name, a.init), z3.BoolVal(False)))
                for i, e in enumerate(env[a.name]):
                    for lab, gg in lane_goal(ex.load_sc(fs, o, i * esz, ('i', a.vt.bits)), e, a.vt.bits):
                        goals.append(('frame on panic: %s lane %d %s' % (a.name, i, lab), gg))
        elif fs.outcome == 'abort':
            goals.append(('does not abort', z3.BoolVal(False)))
        else:
            goals.append(('panics when specified', z3.Not(panics)))
            actual = {}
            for a in fn.args:
                if isinstance(a, Usize):
                    continue
                o = objs[a.name]
                esz = a.vt.bits // 8
                ty = ('i', a.vt.bits)
                if isinstance(a, Slice):
                    lim = o.extra['limit']
                    extra = [kk for kk in fs.mem[o.oid] if not (0 <= kk < lim)]
                    if extra:
                        goals.append(('frame: %s beyond lane %d' % (a.name, a.init), z3.BoolVal(False)))
                    exp = list(spec.outs.get(a.name, []))
                    exp = exp + env[a.name][len(exp):]
                    got = [ex.load_sc(fs, o, i * esz, ty) for i in range(a.init)]
                    if not a.mut:
                        continue
                elif type(a) is In:
                    continue   # not writable: any store already failed the frame obligation
                else:
                    exp = spec.outs.get(a.name)
                    got = [ex.load_sc(fs, o, i * esz, ty) for i in range(a.vt.n)]
                    actual[a.name] = got
                    if exp is None:
                        if spec.checks is None:
                            raise Unsupported('contract does not specify ' + a.name)
                        for i, g in enumerate(got):
                            if g[1] is not None:
                                goals.append(('%s lane %d defined' % (a.name, i), z3.BoolVal(False) if g[1] is True else z3.Not(g[1])))
                        continue
                for i, (g, e) in enumerate(zip(got, exp)):
                    for lab, gg in lane_goal(g, e, a.vt.bits):
                        goals.append(('%s lane %d %s' % (a.name, i, lab), gg))
            if spec.checks is not None:
                goals += [(l, zb(c)) for l, c in spec.checks({n: [bv(g[0], 8) if g[0] is None else g[0] for g in v] for n, v in actual.items()})]
            if fn.heap:
                h = spec.heap(env.heap0) if spec.heap else env.heap0
                goals.append(('heap: exactly the enabled lanes are written', fs.heap == h if not fs.heap.eq(h) else None))
        groups.append((tuple(fs.pc), goals))
    s.set('timeout', smt_ms)
    nreq = list(req)
    open_ = None
    for pc, goals in groups:
        hyps = None
        for lab, g in goals:
            r.obligations += 1
            if end is not None and time.time() > end:
                r.status = 'undecided'
                r.reason = 'time limit: not all obligations answered'
                r.solver_s += time.time() - ts
                return
            if g is None:
                r.by_norm += 1
                continue
            g2 = simp(g)
            if z3.is_true(g2):
                r.by_norm += 1
                continue
            if hyps is None:
                hyps = nreq + list(pc)
            # after an obligation without answer the others get less time: one of them
            # may still be refuted
            res = prove_goal(hyps, g2, smt_ms if open_ is None else min(smt_ms, 1000), r)
            if res == z3.unsat:
                r.by_smt += 1
                continue
            if res == z3.unknown:
                open_ = open_ or lab
                continue
            # a counterexample: get a model under all hypotheses
            s.push()
            for c in pc:
                s.add(c)
            s.add(z3.Not(g2))
            res = s.check()
            if res != z3.sat:
                s.pop()
                if res == z3.unsat:
                    r.by_smt += 1
                else:
                    open_ = open_ or lab
                continue
            m = pick_model(s, env, fn)
            s.pop()
            r.status = 'failed'
            r.failed = (lab, assignment(m, env, fn))
            r.uf = has_uf([g2])
            r.reason = 'obligation failed: %s' % lab
            r.solver_s += time.time() - ts
            return
    r.solver_s += time.time() - ts
    if open_ is not None:
        r.status = 'undecided'
        r.reason = 'solver: no answer on ' + open_
        return
    r.status = 'proved'
    if r.obligations == 0:
        r.status = 'undecided'
        r.reason = 'vacuous: no obligation'
        r.vacuous = True


_consts = {}
_keep = []


def consts_of(t):
    """(uninterpreted constants in order of first occurrence, node count)"""
    k = t.get_id()
    c = _consts.get(k)
    if c is not None:
        return c
    seen = set()
    out = []
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.append(x)
            else:
                st.extend(reversed(x.children()))
    c = (out, len(seen))
    _consts[k] = c
    _keep.append(t)
    return c


_cache = {}
_canon = {}


def canon(i, sort):
    k = (i, sort.sexpr())
    v = _canon.get(k)
    if v is None:
        v = z3.Const('!%d' % i, sort)
        _canon[k] = v
    return v


def prove_goal(hyps, goal, ms, r):
    """unsat: hyps => goal is valid.  Only hypotheses that share variables
    (transitively) with the goal are used first; identical obligations up to
    renaming are discharged once."""
    gv, size = consts_of(goal)
    seen = {x.get_id() for x in gv}
    rest = [(h, consts_of(h)) for h in hyps]
    rel = []
    while True:
        more = []
        left = []
        for h, c in rest:
            if not c[0] or any(x.get_id() in seen for x in c[0]):
                more.append(h)
                seen.update(x.get_id() for x in c[0])
            else:
                left.append((h, c))
        rel += more
        if not more:
            break
        rest = left
    f = z3.And(z3.Not(goal), *rel) if rel else z3.Not(goal)
    key = None
    vs, sz = consts_of(f)
    if sz < 4000:
        sub = [(x, canon(i, x.sort())) for i, x in enumerate(vs)]
        f = z3.substitute(f, *sub) if sub else f
        key = f.sexpr()
        if key in _cache:
            return _cache[key]
    res = solve(f, ms)
    if res == z3.sat and rest:
        f = z3.And(z3.Not(goal), *hyps)
        res = solve(f, ms)
    elif key is not None and res == z3.unsat:
        _cache[key] = res
    return res


def solve(f, ms):
    s = z3.Solver()
    s.set('timeout', min(ms, 10000))
    s.add(f)
    res = s.check()
    if res != z3.unknown:
        return res
    for tac in (('simplify', 'solve-eqs', 'bit-blast', 'sat'), ('simplify', 'propagate-values', 'solve-eqs', 'smt')):
        try:
            q = z3.Then(*tac).solver()
            q.set('timeout', ms)
            q.add(f)
            res = q.check()
            if res != z3.unknown:
                return res
        except z3.Z3Exception:
            continue
    return z3.unknown


def pick_model(s, env, fn):
    """prefer a model with small slice lengths, so that it can be replayed"""
    m = s.model()
    if fn.heap:
        from .replay import REGION, RSIZE
        ps = [g for g in fn.args if isinstance(g, In) and g.vt.kind == 'p']
        ms = [g for g in fn.args if isinstance(g, In) and g.vt.kind == 'm']
        s.push()
        for p, q in zip(env[ps[0].name], env[ms[0].name]):
            s.add(z3.Implies(q != 0, z3.And(z3.ULE(p, z3.BitVecVal(REGION + RSIZE - 16, 64)), z3.UGE(p, z3.BitVecVal(REGION, 64)))))
        s.set('timeout', 10000)
        if s.check() == z3.sat:
            m = s.model()
        s.pop()
    if env.length:
        s.push()
        for a in fn.args:
            if isinstance(a, Slice):
                s.add(z3.ULE(env.length[a.name], z3.BitVecVal(a.init, 64)))
        if s.check() == z3.sat:
            m = s.model()
        s.pop()
    return m


def assignment(m, env, fn):
    out = {}

    def ev(x):
        return m.eval(x, model_completion=True).as_long()
    for name, what, xs in env.vars:
        out[name] = [ev(x) for x in xs]
    for n, x in env.length.items():
        out[n + '.len'] = ev(x)
    for n, x in env.base.items():
        out[n + '.addr'] = ev(x)
    if fn.heap:
        from .replay import REGION, RSIZE
        out['#heap'] = [ev(z3.Select(env.heap0, z3.BitVecVal(REGION + i, 64))) for i in range(RSIZE)]
    return out
