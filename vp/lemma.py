"""Lemmas over the contract functions, discharged by z3."""
import time
import z3


def prove(name, hyps, goal, timeout=60000):
    t = time.time()
    s = z3.Solver()
    s.set('timeout', timeout)
    for h in hyps:
        s.add(h)
    # vacuity: hypotheses satisfiable
    if hyps and s.check() == z3.unsat:
        return {'name': name, 'status': 'vacuous', 's': time.time() - t}
    s.add(z3.Not(goal))
    r = s.check()
    return {'name': name, 'status': 'proved' if r == z3.unsat else 'refuted' if r == z3.sat else 'unknown', 's': time.time() - t}


def prove_all(ls):
    return [prove(*l) for l in ls]
