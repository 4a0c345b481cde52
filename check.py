#!/usr/bin/env python3
"""Decides one property by symbolic execution of the real code of /repo:  check.py <ID> [--tier quick|thorough]
check.py --replay <file> re-runs a counterexample against the untouched code."""
import argparse, hashlib, json, os, re, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True


def known_findings():
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'finding: property=(\S+) (\{.*\})\s+(.*)$', ln.strip())
            if m:
                out.append((m.group(1), json.loads(m.group(2)), m.group(3)))
    return out


def is_known(known, prop, v):
    for p, key, text in known:
        if p != prop:
            continue
        if key.get('fn') not in (None, v['case']['fn']):
            continue
        if 'msg' in key and key['msg'] != v['msg']:
            continue
        if 'values' in key and any(v['values'].get(k) != x for k, x in key['values'].items()):
            continue
        return text
    return None


def replay(path):
    from symex.explore import Concrete
    d = json.load(open(path))
    c = Concrete()
    r = c.run(d['case'], d['values'])
    c.close()
    print(json.dumps({'property': d['property'], 'case': d['case'], 'values': d['values'], 'result': r}, indent=1,
                     ensure_ascii=False))
    return 1 if r['failed'] else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--case', type=int)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from harness_plan import PLAN, assumptions
    from symex import explore
    t0 = time.time()
    prop = a.prop
    plan = PLAN[prop]
    tier = a.tier
    cases = list(plan['quick'])
    if tier == 'thorough':
        cases = cases + list(plan.get('thorough', []))
    for i, c in enumerate(cases):
        c['id'] = f'{prop}.{i}'
    if a.case is not None:
        cases = [cases[a.case]]
    budget = a.budget or (plan.get('budget', 240) if tier == 'quick' else plan.get('tbudget', 780))
    known = known_findings()
    R = explore.explore(cases, seed, budget, validate=60 if tier == 'quick' else 300,
                        known=lambda v: is_known(known, prop, v) is not None)
    viols, shown = [], set()
    for v in R['violations']:
        k = is_known(known, prop, v)
        if k is not None:
            if k not in shown:
                print(f'KNOWN-FINDING: property={prop} {k}')
                shown.add(k)
            continue
        viols.append(v)
    # a violation counts when a fresh process with the untouched code reproduces it
    confirmed = []
    for v in viols[:3]:
        c = explore.Concrete()
        r = c.run(v['case'], v['values'])
        c.close()
        if r['failed']:
            confirmed.append((v, r))
    lines = []
    for v, r in confirmed[:1]:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        body = {'property': prop, 'case': v['case'], 'values': v['values'], 'failed': r['failed'], 'observed': r['observed'],
                'trace': r['trace']}
        hsh = hashlib.sha1(json.dumps([v['case'], v['values']], sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join('replays', f'{prop}-{hsh}.json')
        with open(os.path.join(VERIF, path), 'w') as f:
            json.dump(body, f, indent=1, ensure_ascii=False)
        print(f'{prop}: {r["failed"][0]}; inputs: {json.dumps(v["values"])[:300]} case: {json.dumps(v["case"])[:300]}')
        lines.append(f'VIOLATION property={prop} replay={path}')
    st, cnt = R['stats'], R['cnt']
    paths = sum(v['paths'] for v in R['per_case'].values())
    bad = len(R['mismatch']) + len(R['spurious'])
    vacuous = [cases[i]['id'] for i, v in R['per_case'].items() if v['open'] <= 0 and v['paths'] == 0]
    unfinished = [{'case': cases[i]['id'], 'open_paths': v['open'], 'done': v['paths']} for i, v in R['per_case'].items()
                  if v['open'] > 0]
    samples = []
    seen = set()
    for ci, s in R['samples']:
        if len(samples) >= 5:
            break
        if ci in seen and len(seen) < len(cases):
            continue
        seen.add(ci)
        samples.append({'case': cases[ci], 'inputs': s['values'], 'observed': json.loads(json.dumps(s['observed'], default=repr)),
                        'decisions_on_the_path': s['decisions']})
    from harness_plan import relevant
    enc = {m: fns for m, fns in R['encoded'].items()}
    cov = {
        'explanation': 'symbolic execution of the real code (every path of it for the stated symbolic inputs); states = '
                       'completed paths (each one stands for all inputs satisfying its path condition), transitions = '
                       'branch decisions along them that depend on symbolic inputs; each property assertion is an obligation '
                       'discharged on each path (z3 query: path condition and not assertion)',
        'states': paths, 'transitions': cnt.get('dec', 0), 'traces_validated_against_impl': R['validated'],
        'samples': samples, 'obligations': cnt.get('obl', 0),
        'discharged': cnt.get('obl', 0) if not confirmed else 0,
        'obligations_constant_on_path': st.get('trivial', 0), 'solver_queries': st.get('queries', 0),
        'solver_queries_answered_from_cache': st.get('cached', 0), 'solver_unsat': st.get('unsat', 0), 'solver_sat': st.get('sat', 0),
        'solver_unknown': st.get('unknown', 0), 'solver_seconds': round(st.get('solver_s', 0.0), 3),
        'infeasible_paths_dropped': cnt.get('abort', 0), 'paths_not_encodable': cnt.get('unsupported', 0),
        'concretised_terms': st.get('concretised', 0),
        'counterexamples_replayed': R['replays'], 'spurious_counterexamples': len(R['spurious']),
        'validation_mismatches': len(R['mismatch']),
        'bounds': plan['bounds'] if isinstance(plan['bounds'], str) else plan['bounds'],
        'cases': [{'id': c['id'], 'harness': f"harness/{c['mod']}.py:{c['fn']}", 'symbolic_inputs': c['args'],
                   'paths': R['per_case'][i]['paths'] if i in R['per_case'] else 0,
                   'all_paths_explored': i in R['per_case'] and R['per_case'][i]['open'] <= 0} for i, c in enumerate(cases)],
        'bounded_space_completely_explored': R['complete'], 'unfinished_cases': unfinished,
        'functions_encoded': {m: sorted(set(f)) for m, f in sorted(enc.items())},
        'functions_encoded_total': sum(len(set(f)) for f in enc.values()),
    }
    if cov['states'] == 0:
        cov['states'] = 0
    ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'model_checking',
          'coverage': cov, 'assumptions': assumptions(prop), 'wall_s': round(time.time() - t0, 2), 'violations': len(confirmed)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write('\n')
    print(f'{prop} {tier}: {paths} paths, {cnt.get("obl", 0)} obligations, {st.get("queries", 0)} solver queries '
          f'({st.get("solver_s", 0.0):.1f} s), {R["validated"]} traces validated, wall {time.time() - t0:.1f} s, '
          f'{"complete" if R["complete"] else "NOT COMPLETE"}')
    if a.v or bad or R['errors']:
        for s in R['spurious'][:3]:
            print('spurious:', s['msg'], s['values'], s['case'], (s['trace'] or '')[-1500:], s['status'], file=sys.stderr)
        for s in R['mismatch'][:3]:
            print('mismatch:', s, file=sys.stderr)
    for e in R['errors'][:2]:
        print('error:', e, file=sys.stderr)
    for e in R['unsupported'][:2]:
        print('not encodable:', e, file=sys.stderr)
    if a.v:
        for c in cov['cases']:
            print('  ', c['id'], c['harness'], json.dumps(c['symbolic_inputs'])[:150], c['paths'], c['all_paths_explored'])
    for ln in lines:
        print(ln)
    sys.stdout.flush()
    if confirmed:
        os._exit(1)
    # inconclusive: nothing was decided
    if paths == 0 or R['errors'] or bad > max(3, paths // 10) or cnt.get('unsupported', 0) > paths // 2 + 3:
        print(f'{prop}: inconclusive', file=sys.stderr)
        os._exit(2)
    os._exit(0)


if __name__ == '__main__':
    main()
