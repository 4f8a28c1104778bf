"""Decide one property: prove every harness of its spec, run the real code on concrete inputs, report.

usage: check.py <property id>      (VERIF_TIER=quick|thorough, VERIF_SEED=n)

Exit 0: nothing broken. Exit 1: a line VIOLATION property=<id> replay=<path> [no-failing-input-found].
Exit 3: the check itself could not run.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
TRUSTED = [
    'the translation of /repo\'s modules by engine/transform.py (control flow of loops, comparisons and string '
    'formatting routed to the verifier; @typechecked run-time checks dropped; nothing else is changed)',
    'engine (path exploration, loop cutting, frame guard) and Z3 4.x as back end',
    'Python float arithmetic is treated as real arithmetic, int arithmetic is exact',
    'ROS message classes and rclpy objects are stand-ins or test doubles; rosidl_runtime_py and example_interfaces '
    'are replaced by /verif/stubs',
]


def run_worker(args, timeout, scratch, n):
    out = os.path.join(scratch, f'o{n}.json')
    t0 = time.time()
    try:
        p = subprocess.run([PY, '-m', 'engine.worker', *args, '--out', out], cwd=HERE, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
        tail = p.stdout[-3000:]
    except subprocess.TimeoutExpired as e:
        return {'error': f'worker timed out after {timeout} s', 'timeout': True, 'wall_s': time.time() - t0}
    try:
        with open(out) as f:
            return json.load(f)
    except (OSError, ValueError):
        return {'error': f'worker ended with {p.returncode}', 'log': tail, 'wall_s': time.time() - t0}


def slug(s):
    return re.sub(r'[^A-Za-z0-9]+', '-', s).strip('-')[:60]


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    spec = pid.lower()
    scratch = tempfile.mkdtemp(prefix=f'vp-{pid}-')
    try:
        return decide(pid, spec, tier, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(pid, spec, tier, seed, t0, scratch):
    thorough = tier == 'thorough'
    counter = iter(range(10**9))
    lst = run_worker(['list', spec], 120, scratch, next(counter))
    if 'harnesses' not in lst:
        print(f'{pid}: the spec cannot be loaded on this tree\n{lst.get("log", lst)}')
        return 3
    hs, meta = lst['harnesses'], lst['meta']
    jobs = []
    for h in hs:
        if h.get('prove', True):
            budget = h.get('prove_s', 90) * (4 if thorough else 1)
            jobs.append(('prove', h, ['prove', spec, h['name'], '--seconds', str(budget)], budget + 90))
    for h in hs:
        if h.get('concrete', True):
            s = h.get('concrete_s', 5) * (12 if thorough else 1)
            s = min(s, 240)
            jobs.append(('concrete', h, ['concrete', spec, h['name'], '--seconds', str(s), '--seed', str(seed)], s + 200))
    jobs.sort(key=lambda j: -j[1].get('weight', 1) if j[0] == 'prove' else 0)
    res = {}
    with cf.ThreadPoolExecutor(8) as ex:
        futs = {ex.submit(run_worker, a, t, scratch, next(counter)): (k, h['name']) for k, h, a, t in jobs}
        for f in cf.as_completed(futs):
            res[futs[f]] = f.result()

    violations, undecided, known, notes = [], [], {}, []
    byname = {h['name']: h for h in hs}
    # -- concrete runs of the real code
    conc_bad = set()
    broken = []
    for h in hs:
        r = res.get(('concrete', h['name']))
        if r is None:
            continue
        if 'error' in r:
            broken.append(f'{h["name"]}: {r["error"]} {r.get("log", "")}')
            continue
        known.update(r.get('known', {}))
        if r.get('misfit'):
            notes.append(f'{h["name"]}: the harness does not fit this tree: {r["misfit"][:400]}')
        for v in r['violations']:
            conc_bad.add(h['name'])
            violations.append({'harness': h['name'], 'label': v['label'], 'kind': 'input', 'trace': v['trace'],
                               'detail': v['detail'], 'by': 'run of the real code'})
    # -- proofs
    retry = []
    stand_in = []
    for h in hs:
        r = res.get(('prove', h['name']))
        if r is None:
            continue
        if 'error' in r:
            r = res[('prove', h['name'])] = {'status': 'unsupported', 'reason': r['error'] + r.get('log', '')[-300:],
                                             'obligations': {}, 'stats': {}, 'functions': [], 'wall_s': r['wall_s']}
        known.update(r.get('known', {}))
        if r['status'] == 'proved' or h['name'] in conc_bad:
            continue
        retry.append(h)
    # failed obligations: look for an input that shows the failure on the real code
    jobs2 = []
    for h in retry:
        for b in ((1, 2, 3) if not thorough else (1, 2, 3, 4)):
            s = 60 if not thorough else 400
            if not thorough and time.time() - t0 > 330:
                continue
            jobs2.append((h['name'], b, ['bounded', spec, h['name'], '--bound', str(b), '--seconds', str(s)], s + 90))
    bres = {}
    with cf.ThreadPoolExecutor(8) as ex:
        futs = {ex.submit(run_worker, a, t, scratch, next(counter)): (n, b) for n, b, a, t in jobs2}
        for f in cf.as_completed(futs):
            bres[futs[f]] = f.result()
    for h in retry:
        name = h['name']
        r = res[('prove', name)]
        cands = []
        for lab, o in r['obligations'].items():
            if o['status'] != 'proved':
                cands.append((lab, o))
        bounded_done = []
        for b in (1, 2, 3, 4):
            br = bres.get((name, b))
            if not br or 'error' in br:
                continue
            if br['status'] != 'unsupported':
                bounded_done.append(b)
            for lab, o in br['obligations'].items():
                if o['status'] == 'refuted':
                    cands.append((lab, o))
        found = False
        tries = []
        seen_traces = set()
        for lab, o in cands:
            if o.get('trace') is None:
                continue
            key = json.dumps(o['trace'], sort_keys=True, default=str)
            if key not in seen_traces:
                seen_traces.add(key)
                tries.append((lab, o['trace']))
        left = (480 if not thorough else 3000) - (time.time() - t0)
        if tries and left > 10:
            def attempt(x):
                lab, trace = x
                rest = (480 if not thorough else 3000) - (time.time() - t0)
                if rest < 5:
                    return lab, {}
                n = next(counter)
                tf = os.path.join(scratch, f't{n}.json')
                with open(tf, 'w') as f:
                    json.dump(trace, f)
                return lab, run_worker(['replay', spec, name, '--trace', tf, '--seconds', '20'], 60, scratch, n)
            with cf.ThreadPoolExecutor(8) as ex:
                for lab, rr in ex.map(attempt, tries[:16]):
                    v = rr.get('violation')
                    if v and not found:
                        violations.append({'harness': name, 'label': v['label'], 'kind': 'input', 'trace': v['trace'],
                                           'detail': v['detail'],
                                           'by': f'counterexample of the failed obligation "{lab}", '
                                           'replayed on the real code'})
                        found = True
        if found:
            continue
        failed = {lab: o for lab, o in r['obligations'].items() if o['status'] != 'proved'}
        exc_only = all(lab.startswith('no uncaught exception') for lab in failed)
        if r['status'] == 'unsupported' or exc_only:
            why = r['reason'] or 'an exception path that the bounded runs do not confirm'
            stand_in.append({'harness': name, 'reason': why[:600], 'bounded_checked_up_to': bounded_done})
        else:
            lab, o = next(iter(failed.items()))
            violations.append({'harness': name, 'label': lab, 'kind': 'obligation', 'trace': o.get('trace'),
                               'detail': json.dumps({k: v for k, v in o.items() if k != 'trace'}, default=str)[:4000],
                               'all_failed': list(failed), 'by': 'the verifier did not discharge this obligation'})

    # -- report
    full = {k[1]: r for k, r in res.items() if k[0] == 'prove' and not byname[k[1]].get('limit')}
    sized = {k[1]: r for k, r in res.items() if k[0] == 'prove' and byname[k[1]].get('limit')}
    nob = sum(len(r['obligations']) for r in full.values())
    ndis = sum(1 for r in full.values() for o in r['obligations'].values() if o['status'] == 'proved')
    bob = sum(len(r['obligations']) for r in sized.values())
    bdis = sum(1 for r in sized.values() for o in r['obligations'].values() if o['status'] == 'proved')
    vcs = sum(o['vcs'] for k, r in res.items() if k[0] == 'prove' for o in r['obligations'].values())
    funcs = sorted({f for r in full.values() if r['status'] == 'proved' for f in r['functions']})
    sfuncs = sorted({f for r in sized.values() if r['status'] == 'proved' for f in r['functions']} - set(funcs))
    conc = {k[1]: r for k, r in res.items() if k[0] == 'concrete' and 'error' not in r}
    prov = {k[1]: r for k, r in res.items() if k[0] == 'prove'}
    with open(os.path.join(HERE, 'MANIFEST.json')) as f:
        man = json.load(f)
    level = next((c['level'] for c in man['checks'] if c['property'] == pid), 'proof')
    samples = []
    for n, r in conc.items():
        for s in r['samples'][:2]:
            samples.append({'harness': n, **s})
    cov = {
        'evaluations': sum(r['runs'] for r in conc.values()),
        'distinct_nontrivial': sum(r['distinct'] for r in conc.values()),
        'rule': 'each harness is first enumerated depth first over its small input domains, then driven by seeded random '
                'choices; a run is non-trivial if it evaluated at least one check and distinct if its inputs differ',
        'samples': samples[:8],
        'obligations': nob, 'discharged': ndis, 'verification_conditions': vcs,
        'checker_cmd': f'./run.sh {pid}  (engine/: VC generation from /repo, back end Z3 {z3_version(prov)})',
        'back_end': 'z3 (python bindings, in process)',
        'solver_s': round(sum(r['stats'].get('solver_s', 0) for r in prov.values()), 2),
        'solver_queries': sum(r['stats'].get('queries', 0) for r in prov.values()),
        'paths': sum(r['stats'].get('paths', 0) for r in prov.values()),
        'trusted_base': TRUSTED + meta.get('trusted', []),
        'functions_under_contract': funcs,
        'obligations_within_a_size_bound': bob, 'discharged_within_a_size_bound': bdis,
        'functions_under_contract_within_a_size_bound': sfuncs,
        'cut_loops': sorted({x for r in prov.values() for x in r.get('cut_loops', [])}),
        'inferred_invariant_conjuncts': sum(r.get('invariants', 0) for r in prov.values()),
        'proofs': {n: {'status': r['status'], 'obligations': len(r['obligations']),
                       'discharged': sum(o['status'] == 'proved' for o in r['obligations'].values()),
                       'reached': r.get('covers', []), 'wall_s': r.get('wall_s'),
                       'size_bound': byname[n].get('limit', 'none'), 'reason': r.get('reason', '')[:400]}
                   for n, r in prov.items()},
        'bounded': {n: {'runs': r['runs'], 'exhaustive_over_small_domain': r['exhaustive'], 'checks': r['checks'],
                        'reached': r['covers'], 'bound': byname[n].get('bound', 'the domains drawn in the harness'),
                        'deciding': not byname[n].get('prove', True)}
                    for n, r in conc.items()},
        'stand_ins': stand_in,
        'exhaustive': bool(conc) and all(r['exhaustive'] for r in conc.values()),
        'notes': notes,
    }
    if level == 'other':
        cov['explanation'] = meta.get('explanation', '')
    kf = load_known()
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': meta.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for k in kf:
        if k['property'] == pid and k['id'] in known:
            print(f'KNOWN-FINDING: property={pid} {k["id"]}: {k["what"]}')
    for n in notes:
        print('note:', n.splitlines()[0][:300])
    for s in stand_in:
        print(f'note: {s["harness"]} is outside the verifier\'s reach on this tree ({s["reason"].splitlines()[0][:200]}); '
              f'bounded runs stand in')
    print(f'{pid}: {ndis}/{nob} obligations discharged' + (f' and {bdis}/{bob} within a size bound' if sized else '') +
          f' ({vcs} conditions), {cov["evaluations"]} runs of the real code, '
          f'{len(violations)} violations, {ev["wall_s"]} s')
    if broken:
        for b in broken:
            print('error:', b)
    if violations:
        violations.sort(key=lambda v: v['kind'] != 'input')
        v = violations[0]
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        path = os.path.join(HERE, 'replays', f'{pid}-{slug(v["harness"])}-{slug(v["label"])}.json')
        with open(path, 'w') as f:
            json.dump({'property': pid, 'spec': spec, 'failed_obligation': f'{v["harness"]}: {v["label"]}', **v,
                       'others': [f'{x["harness"]}: {x["label"]}' for x in violations[1:]],
                       'how': f'./replay.sh {path}'}, f, indent=1, default=str)
        print(f'failed: {v["harness"]}: {v["label"]} ({v["by"]})')
        print(str(v['detail'])[:1500])
        print(f'VIOLATION property={pid} replay={path}' + ('' if v['kind'] == 'input' else ' no-failing-input-found'))
        return 1
    return 3 if broken else 0


def z3_version(prov):
    for r in prov.values():
        if r.get('z3'):
            return r['z3']
    return ''


def load_known():
    try:
        with open(os.path.join(HERE, 'known_findings.json')) as f:
            return json.load(f)['findings']
    except FileNotFoundError:
        return []


if __name__ == '__main__':
    sys.exit(main())
