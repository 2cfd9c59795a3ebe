#!/usr/bin/env python3-vt
"""check.py <property id> [--tier quick|thorough]     decides one property by deductive verification of /repo's sources
   check.py --replay <file>                            re-runs the failing input recorded in a replay file"""
import os, sys, json, time, argparse
if os.environ.get('PYTHONHASHSEED') != '0': os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'engine'), os.path.join(HERE, 'specs')]
import load, driver, native, props

def findings():
    p = os.path.join(HERE, 'known-findings.txt')
    return [l.strip() for l in open(p) if l.strip() and not l.startswith('#')] if os.path.exists(p) else []

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay'); ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.replay: sys.exit(native.replay(a.replay))
    pid = a.property; P = props.PROPS[pid]; tier = a.tier; seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    progs = {}
    try:
        for big in sorted({P.get('big', {}).get(k, 0) for k, _ in P['roots']} | {0}): progs[big] = load.load(big)
    except load.CompileError as x:
        print('cannot compile /repo: ' + str(x)); sys.exit(2)
    opts = dict(timeout=20000 if tier == 'quick' else 60000, fn_limit=P.get('limit', 240) * (1 if tier == 'quick' else 3), cross=tier == 'thorough')
    fac = {k: props.factory(k) for k, _ in P['roots']}
    res = driver.prove_property(P['roots'], fac, opts, progs, deadline=t0 + 540 if tier == 'quick' else None)
    obl = [(r['task'][0],) + o for r in res for o in r['obls']]
    bad = [o for o in obl if o[3] != 'ok']
    fns = sorted({r['task'][1] for r in res if isinstance(r['task'][1], str)})
    expected = {n for k, ns in P['roots'] for n in (ns or [])}
    if not obl or (expected - set(fns)): bad.append(('-', '-', 'obligations were generated for every function', 'fail', 0, 'missing: %s' % (expected - set(fns)), 'driver'))
    viol = 0; line = None
    explored = None
    if bad:
        viol = 1
        found, explored = native.search(P.get('native', pid), seed, P.get('search_s', 60))
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        rp = os.path.join(HERE, 'replays', f'{pid}.json')
        rec = dict(property=pid, failed_obligations=[dict(layer=b[0], function=b[1], obligation=b[2], status=b[3], verifier_output=b[5][:4000]) for b in bad[:25]],
                   failed_total=len(bad), native=found, searched=explored)
        if found: rec['rerun'] = f'{HERE}/check.py --replay {rp}'
        json.dump(rec, open(rp, 'w'), indent=1)
        for b in bad[:8]: print(f'undischarged: {b[1]}: {b[2]} [{b[3]}]')
        if found: print('failing input on the real code: ' + found['what'][:600])
        line = f'VIOLATION property={pid} replay={rp}' + ('' if found else ' no-failing-input-found')
    elif tier == 'thorough':
        # the proof decides; the search over real executions only guards the trusted base
        found, explored = native.search(P.get('native', pid), seed, P.get('thorough_s', 240))
        if found:
            viol = 1; os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
            rp = os.path.join(HERE, 'replays', f'{pid}.json')
            json.dump(dict(property=pid, failed_obligations=[], native=found, searched=explored, note='the proof went through, so an assumption of the trusted base is wrong'), open(rp, 'w'), indent=1)
            print('failing input on the real code: ' + found['what'][:600]); line = f'VIOLATION property={pid} replay={rp}'
    kf = []
    for l in findings():
        if l.startswith(f'known: property={pid} '):
            kf.append(l[len(f'known: property={pid} '):])
            print(f'KNOWN-FINDING: property={pid} ' + kf[-1])
    by = {}
    for o in obl: by.setdefault(o[6], [0, 0]); by[o[6]][0] += 1; by[o[6]][1] += o[3] == 'ok'
    cov = dict(obligations=len(obl), discharged=len(obl) - len(bad) if obl else 0,
               checker_cmd=f'python3-vt {HERE}/check.py {pid} --tier {tier}   (VC generator /verif/engine over clang-18 LLVM IR of /repo/src, z3 {driver.z3.get_version_string()})',
               trusted_base=props.TRUSTED + P.get('trusted', []),
               functions_under_contract=fns, inlined_functions=sorted({x for r in res for x in r['inlined']}),
               assumed_library_contracts=sorted({x for r in res for x in r['libc']}),
               discharged_by_backend={k: f'{v[1]}/{v[0]}' for k, v in by.items()},
               solver_s=round(sum(r['solver_s'] for r in res), 2),
               vacuity=dict(preconditions_shown_satisfiable=sum(o[2] == 'precondition is satisfiable' and o[3] == 'ok' for o in obl),
                            functions_with_a_returning_path=sum(o[2] == 'function has a terminating path' and o[3] == 'ok' for o in obl)),
               per_function={f"{r['task'][0]}/{r['task'][1] if isinstance(r['task'][1], str) else 'lemma %d' % r['task'][1][1]}": f"{sum(o[2] == 'ok' for o in r['obls'])}/{len(r['obls'])}" for r in res},
               bounded=P.get('bounded', []), undischarged=[f'{b[1]}: {b[2]} [{b[3]}]' for b in bad[:40]])
    if tier == 'thorough':
        cov['cross_checked_by_cvc5'] = dict(agreed=sum(r.get('cross', (0, 0))[0] for r in res), undecided=sum(r.get('cross', (0, 0))[1] for r in res))
    if explored: cov['native_search'] = explored
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(dict(property=pid, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level=P.get('level', 'proof'), coverage=cov,
                   assumptions=props.ASSUMPTIONS + P.get('assumptions', []) + [f'known finding: {x}' for x in kf], wall_s=round(time.time() - t0, 2), violations=viol),
              open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w'), indent=1)
    if a.v:
        for r in res: print(r['task'], f"{sum(o[2] == 'ok' for o in r['obls'])}/{len(r['obls'])}", round(r.get('wall', 0), 2))
    print(f'{pid}: {cov["discharged"]}/{cov["obligations"]} obligations discharged over {len(fns)} functions, solver {cov["solver_s"]} s, wall {time.time() - t0:.1f} s')
    if line: print(line)
    sys.exit(1 if viol else 0)
main()
