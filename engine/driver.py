"""Runs the proof obligations of one property: every contract the property needs, and transitively every
contract those proofs rely on, each verified against the body of the real function."""
import os, sys, time, traceback, multiprocessing as mp
sys.path[:0] = [os.path.dirname(os.path.abspath(__file__)), os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'specs')]
import vc, load, z3
from sym import *

_prog = {}
_factories = {}
def run_task(task):
    """(layer key, contract name | ('lemma', i)) -> dict"""
    lay, what, opts = task
    t = time.time()
    res = dict(task=(lay, what), obls=[], used=[], inlined=[], libc=[], error=None, solver_s=0.0)
    try:
        L = _factories[lay]()
        if isinstance(what, tuple):
            nm, q = L.lemmas()[what[1]]
            t0 = time.time()
            if isinstance(q, tuple):        # (hypotheses, goal)
                e = vc.Engine(_prog[0], L, timeout=opts.get('timeout', 10000)); st, _ = e.check_valid(list(q[0]), q[1])
                res['obls'].append(('lemma', nm, st, time.time() - t0, '' if st == 'ok' else 'lemma not proved: ' + str(q[1])[:800], 'z3')); res['solver_s'] = e.solver_s
                return res
            s = z3.Solver(); vc.limit(s, opts.get('timeout', 20000)); s.set('smt.mbqi', False)
            for a in L.lemma_axioms() if hasattr(L, 'lemma_axioms') else []: s.add(a)
            s.add(z3.Not(q)); r = s.check()
            st = 'ok' if r == z3.unsat else 'fail' if r == z3.sat else 'undecided:' + s.reason_unknown()
            res['obls'].append(('lemma', nm, st, time.time() - t0, '' if st == 'ok' else 'lemma not proved: ' + str(q)[:800], 'z3'))
            res['solver_s'] = time.time() - t0
            return res
        e = vc.Engine(_prog[int(getattr(L, 'big', 0))], L, timeout=opts.get('timeout', 10000))
        e.big = bool(getattr(L, 'big', 0)); e.seed = e.seed0 = opts.get('seed', 0)
        e.deadline = time.time() + opts.get('fn_limit', 300)
        try: e.verify(L.contracts[what])
        except vc.Unsupported as x:
            e.obls.append(vc.Obl(what, 'function is within the reach of the verifier', 'undecided:' + str(x)[:300], 0, str(x)))
        except z3.Z3Exception as x:
            e.obls.append(vc.Obl(what, 'function is within the reach of the verifier', 'undecided: solver exception ' + str(x)[:300], 0, str(x)))
        res['obls'] = [(o.fn, o.name, o.status, o.secs, o.detail, o.backend) for o in e.obls]
        res['used'] = sorted(e.used_contracts); res['inlined'] = sorted(e.inlined); res['libc'] = sorted(x for x in e.used_libc if x)
        res['solver_s'] = e.solver_s
    except Exception as x:
        res['error'] = traceback.format_exc()
        res['obls'].append((str(what), 'function is within the reach of the verifier', 'undecided: internal error ' + repr(x)[:200], 0, res['error'], 'engine'))
    res['wall'] = time.time() - t
    return res

def prove_property(roots, factories, opts, prog, jobs=8, deadline=None):
    """roots: list of (layer key, [contract names]) ; returns list of task results"""
    global _prog, _factories
    _prog, _factories = prog, factories
    done, results, again = set(), [], set()
    todo = []
    def push(lay, what):
        if (lay, what) not in done: done.add((lay, what)); todo.append((lay, what, opts))
    cons = {}
    for lay, names in roots:
        L = factories[lay](); cons[lay] = set(L.contracts)
        for n in (names if names is not None else sorted(L.contracts)): push(lay, n)
        if hasattr(L, 'lemmas'):
            for i in range(len(L.lemmas())): push(lay, ('lemma', i))
    ctx = mp.get_context('fork')
    with ctx.Pool(jobs, maxtasksperchild=1) as pool:
        pend = []
        while todo or pend:
            while todo: pend.append(pool.apply_async(run_task, (todo.pop(0),)))
            still = []
            got = False
            for a in pend:
                if a.ready():
                    r = a.get(); got = True; bad = [o for o in r['obls'] if o[2] != 'ok']
                    if bad and r['task'] not in again and len(bad) <= 8 and all(any(w in o[2] for w in ('timeout', 'canceled', 'resource')) for o in bad) and r.get('wall', 0) < 200:
                        again.add(r['task']); todo.append(r['task'] + (dict(opts, seed=101),)); continue      # out of time: bad luck of the search or a stalled machine
                    results.append(r)
                    if deadline and any(o[2] != 'ok' for o in r['obls']): deadline = min(deadline, time.time() + 40)      # the verdict is known; what else fails is only of interest
                    for u in r['used']: push(r['task'][0], u)
                else: still.append(a)
            pend = still
            if deadline and time.time() > deadline and (todo or pend):
                pool.terminate()          # an answer is due: what is left counts as undecided
                for lay, what in sorted(done - {r['task'] for r in results}, key=str):
                    results.append(dict(task=(lay, what), obls=[(str(what), 'proof within the time limit', 'undecided: time', 0, '', 'driver')], used=[], inlined=[], libc=[], error=None, solver_s=0.0, wall=0.0))
                break
            if not got and not todo: time.sleep(0.02)
    return results
