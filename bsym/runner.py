"""Entry point of every check:  python bsym/runner.py C01 [--tier quick|thorough] [--replay FILE]

1. symbolic worker: every task of checks/cNN.py is executed symbolically from /repo's
   current working tree; z3 decides each assertion on each path.
2. concrete worker (fresh process, unpatched code, JIT on): replays every solver
   counterexample, and runs one solver-chosen witness per path (encoding validation
   and vacuity witness).
3. verdict: exit 1 + VIOLATION only for behaviour reproduced on the real code.
"""
import fnmatch
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
EVID = os.path.join(HERE, 'evidence')


def worker(mode, check, jobs, scratch, budget):
    jf = os.path.join(scratch, mode + '_jobs.json')
    of = os.path.join(scratch, mode + '_out.json')
    json.dump(jobs, open(jf, 'w'))
    env = dict(os.environ)
    env.update(PYTHONPATH=os.environ.get('BSYM_REPO', '/repo') + ':' + HERE, MPLBACKEND='Agg', MPLCONFIGDIR=os.path.join(scratch, 'mpl'),
               PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
               NUMBA_NUM_THREADS='1', BSYM_SCRATCH=scratch, HOME=scratch, NUMBA_CACHE_DIR=os.path.join(scratch, 'nb'))
    if mode == 'sym':
        env['NUMBA_DISABLE_JIT'] = '1'
    else:
        env.pop('NUMBA_DISABLE_JIT', None)
    p = subprocess.Popen([PY, os.path.join(HERE, 'bsym', 'worker.py'), mode, check, jf, of],
                         env=env, cwd=scratch, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    try:
        _, err = p.communicate(timeout=budget + 60)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None, 'worker timeout'
    if not os.path.exists(of):
        return None, err.decode(errors='replace')[-3000:]
    return json.load(open(of)), err.decode(errors='replace')[-2000:]


def known_findings(prop):
    f = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)).get('findings', []) if k['property'] == prop]


def is_known(kf, task, label):
    for k in kf:
        if fnmatch.fnmatchcase(task, k['task']) and fnmatch.fnmatchcase(label, k['label']):
            return k
    return None


def replay_file(path):
    job = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix='bsym_')
    try:
        res, err = worker('conc', job['check'], dict(jobs=[job], seed=job.get('seed', 1), budget=300), scratch, 300)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print(json.dumps(res, indent=1) if res else err)
    a = (res or [{}])[0].get('attempts', [])
    bad = any(x['failures'] or x['exception'] for x in a)
    print('REPRODUCED' if bad else 'not reproduced')
    return 1 if bad else 0


def main():
    args = sys.argv[1:]
    if args[0] == '--replay':
        sys.exit(replay_file(args[1]))
    check = args[0].upper()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        tier = args[args.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    only = args[args.index('--only') + 1] if '--only' in args else None
    verbose = '-v' in args
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    sys.path.insert(0, HERE)
    mod = importlib.import_module('checks.' + check.lower())
    tasks = mod.tasks(tier)
    if only:
        tasks = [t for t in tasks if fnmatch.fnmatchcase(t['id'], only)]
    bymap = {t['id']: t for t in tasks}
    assert len(bymap) == len(tasks), 'duplicate task ids'
    sym_budget = getattr(mod, 'SYM_BUDGET', {}).get(tier, 420 if tier == 'quick' else 5400)
    conc_budget = 220 if tier == 'quick' else 1800
    scratch = tempfile.mkdtemp(prefix='bsym_')
    try:
        res, err = worker('sym', check, dict(tasks=tasks, tier=tier, seed=seed, budget=sym_budget), scratch, sym_budget)
        import_failed = None
        if res is None:
            import_failed = err
            res = [dict(crash='symbolic worker failed: ' + err) for _ in tasks]
        jobs, meta = [], []
        incomplete = []
        nwit = 6 if tier == 'quick' else 24
        nwit = getattr(mod, 'WITNESSES', {}).get(tier, nwit)
        for t, r in zip(tasks, res):
            base = dict(task=t['id'], fn=t['fn'], cfg=t.get('cfg', {}))
            if r is None or 'crash' in r:
                incomplete.append(dict(task=t['id'], reason=(r or {}).get('crash', 'no result')[-700:]))
                jobs.append(dict(base, assign=dict(reals={}, choices=t.get('default_choices', {})), tries=8, stop=False))
                meta.append(dict(kind='fallback', task=t['id']))
                continue
            for f in r['failures']:
                jobs.append(dict(base, assign=f['assign'], tries=t.get('tries', 14)))
                meta.append(dict(kind='replay', task=t['id'], f=f))
            for s in r['incomplete']:
                incomplete.append(dict(task=t['id'], reason=s))
            w = r['witnesses']
            n = min(len(w), t.get('nwit', nwit))
            idx = sorted(set(int(i * (len(w) - 1) / max(1, n - 1)) for i in range(n))) if n else []
            for i in idx:
                jobs.append(dict(base, assign=w[i], tries=1, witness=True))
                meta.append(dict(kind='witness', task=t['id']))
            if r['incomplete'] and w:
                jobs.append(dict(base, assign=w[0], tries=8, stop=False))
                meta.append(dict(kind='fallback', task=t['id']))
        cres, cerr = worker('conc', check, dict(jobs=jobs, seed=seed, budget=conc_budget), scratch, conc_budget) \
            if jobs else ([], '')
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if cres is None:
        # the real code cannot even be imported/run: nothing decided
        print('ERROR: concrete worker failed:\n' + (cerr or ''))
        if import_failed:
            print(import_failed)
        sys.exit(2)

    kf = known_findings(check)
    violations, known_hit, unrep, validated, skipped, vac = [], {}, [], 0, 0, {}
    enc_mismatch = []
    for j, m, r in zip(jobs, meta, cres):
        if r is None or 'crash' in r:
            if m['kind'] == 'replay' and m['f']['kind'] != 'unknown':
                unrep.append(dict(task=m['task'], label=m['f']['label'], reason=(r or {}).get('crash', '')[-300:]))
            elif m['kind'] == 'replay':
                pass
            else:
                incomplete.append(dict(task=m['task'], reason='concrete run: ' + (r or {}).get('crash', 'none')[-300:]))
            continue
        bad = None
        if m['kind'] == 'fallback':
            # not a solver-chosen point: it may lie outside the domain of the problem's functions
            for a in r['attempts']:
                a['failures'] = [f for f in a['failures'] if 'got nan' not in f['detail'] and 'nan' not in f['detail'][:400].split()]
                if a['exception'] and ('ZeroDivision' in a['exception'] or 'math domain' in a['exception']):
                    a['exception'] = None
                    a['aborted'] = True
        for a in r['attempts']:
            if a['failures'] or a['exception']:
                bad = a
                break
        if m['kind'] == 'witness' or m['kind'] == 'fallback':
            for a in r['attempts']:
                if not a['aborted'] and a['checks'] > 0 and not a['failures'] and not a['exception']:
                    validated += 1
                    vac[m['task']] = vac.get(m['task'], 0) + 1
                elif a['aborted'] and m['kind'] == 'witness':
                    skipped += 1
        if bad is None:
            if m['kind'] == 'replay':
                unrep.append(dict(task=m['task'], label=m['f']['label'], kind=m['f']['kind'], detail=m['f']['detail'][:400]))
            continue
        labels = [f['label'] for f in bad['failures']] or ['exception:' + bad['exception'].split(':')[0]]
        if bad['exception'] and bad['exception'].startswith('MissingInput') and not bad['failures']:
            incomplete.append(dict(task=m['task'], reason='replay followed a different path'))
            continue
        todo = [l for l in labels if not is_known(kf, m['task'], l)]
        for l in labels:
            k = is_known(kf, m['task'], l)
            if k:
                known_hit[k['id']] = k
        if not todo:
            continue
        violations.append(dict(task=m['task'], label=todo[0], how=m['kind'], solver=m.get('f', {}).get('detail', ''),
                               failures=bad['failures'][:6], exception=bad['exception'], inputs=bad['inputs'],
                               job=dict(j, check=check, seed=seed, tries=max(1, bad['k'] + 1))))

    # vacuity: every task must have reached its assertions on the real code
    for t, r in zip(tasks, res):
        if r and 'crash' not in r and not r['failures']:
            if sum(r['labels'].values()) == 0:
                incomplete.append(dict(task=t['id'], reason='vacuous: no assertion reached'))

    os.makedirs(EVID, exist_ok=True)
    for f in os.listdir(EVID):
        if f.startswith('replay_%s_' % check):
            os.unlink(os.path.join(EVID, f))
    for i, v in enumerate(violations[:10]):
        p = os.path.join(EVID, 'replay_%s_%d.json' % (check, i))
        json.dump(dict(v['job'], violation={k: v[k] for k in v if k != 'job'}), open(p, 'w'), indent=1)
        v['replay'] = p

    tot = dict(paths=0, aborted=0, branches=0, queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0, asserts=0,
               concretised=0, feasibility_queries=0)
    functions, labels, samples = set(), {}, []
    for t, r in zip(tasks, res):
        if not r or 'crash' in r:
            continue
        for k in tot:
            tot[k] += r['stats'].get(k, 0)
        functions.update(r['functions'])
        for l, n in r['labels'].items():
            labels[l] = labels.get(l, 0) + n
        if r['witnesses'] and len(samples) < 4:
            samples.append(dict(task=t['id'], paths=r['stats']['paths'], queries=r['stats']['queries'],
                                assertions=r['labels'], path_model=r['witnesses'][-1]))
    entry = [c for c in json.load(open(os.path.join(HERE, 'MANIFEST.json'))).get('checks', []) if c['property'] == check] \
        if os.path.exists(os.path.join(HERE, 'MANIFEST.json')) else []
    level = entry[0]['level'] if entry else 'model_checking'
    ev = dict(property=check, tier=tier, seed=seed, level=level, wall_s=round(time.time() - t0, 2),
              violations=len(violations), assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + COMMON,
              coverage=dict(
                  states=tot['paths'], transitions=tot['branches'],
                  traces_validated_against_impl=validated, witnesses_outside_float_domain=skipped, samples=samples,
                  explanation='states = symbolic execution paths completed; transitions = symbolic branch points '
                              'where both/all sides were feasible and explored; traces_validated = solver-chosen '
                              'path models re-run on the unpatched JIT-compiled code with every assertion holding',
                  tasks=len(tasks), assertions_decided=tot['asserts'], solver_queries=tot['queries'],
                  unsat=tot['unsat'], sat=tot['sat'], unknown=tot['unknown'],
                  feasibility_queries=tot['feasibility_queries'], solver_time_s=round(tot['solver_s'], 2),
                  infeasible_paths=tot['aborted'], concretised_values=tot['concretised'],
                  assertion_instances=labels, functions_encoded=sorted(functions), bounds=mod.BOUNDS,
                  solver='z3 5.3.2 (Real arithmetic; elementary functions abstracted with axioms)',
                  inconclusive=incomplete[:40], unreproduced_counterexamples=unrep[:20],
                  known_findings=sorted(known_hit), complete=not incomplete and not unrep))
    json.dump(ev, open(os.path.join(EVID, check + '.json'), 'w'), indent=1, default=str)

    print('%s [%s] tasks=%d paths=%d asserts=%d queries=%d (unsat %d, sat %d, unknown %d) solver=%.1fs validated=%d skipped=%d wall=%.1fs'
          % (check, tier, len(tasks), tot['paths'], tot['asserts'], tot['queries'], tot['unsat'], tot['sat'],
             tot['unknown'], tot['solver_s'], validated, skipped, time.time() - t0))
    if verbose:
        for t, r in zip(tasks, res):
            if r and 'crash' not in r:
                print('  task %-40s paths=%d q=%d solver=%.1f wall=%.1f fails=%d' % (
                    t['id'], r['stats']['paths'], r['stats']['queries'], r['stats']['solver_s'], r['wall'], len(r['failures'])))
            else:
                print('  task %-40s CRASH %s' % (t['id'], (r or {}).get('crash', '')[-1500:]))
    shown = set()
    for i in incomplete:
        if i['reason'] not in shown and len(shown) < 6:
            shown.add(i['reason'])
            print('INCONCLUSIVE %s: %s' % (i['task'], i['reason'][-500:]))
    if len(incomplete) > len(shown):
        print('INCONCLUSIVE (%d in total)' % len(incomplete))
    for u in unrep[:8]:
        print('UNREPRODUCED %s: %s' % (u['task'], json.dumps(u)[:900 if verbose else 400]))
    for k in known_hit.values():
        print('KNOWN-FINDING: property=%s %s' % (check, k['what']))
    if violations:
        seen = set()
        for v in violations[:10]:
            if (v['task'], v['label']) in seen:
                continue
            seen.add((v['task'], v['label']))
            print('  %s / %s (%s): %s' % (v['task'], v['label'], v['how'],
                                          json.dumps(v['failures'][:2])[:700] if v['failures'] else v['exception'][:500]))
        print('VIOLATION property=%s replay=%s' % (check, violations[0]['replay']))
        sys.exit(1)
    sys.exit(0)


COMMON = [
    'floating-point arithmetic is modelled as exact real arithmetic (float literals read as the simple rational they denote); '
    'each path is additionally re-run in floats on the JIT-compiled code at a solver-chosen point',
    'sin/cos/exp/log/sqrt/asin are abstracted by fresh reals constrained by sin^2+cos^2=1, positivity, monotonicity and inverse axioms',
    'divisors met on a path are assumed non-zero and function arguments inside their real domain',
    'sympy (sympify, diff, solve, lambdify code generation), numpy array plumbing and numba are executed, not verified',
]

if __name__ == '__main__':
    main()
