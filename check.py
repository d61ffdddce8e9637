#!/usr/bin/env python3
'''check.py PROPERTY [--tier quick|thorough] [--harness SUBSTR]

Decides one property by symbolic execution of the current source of /repo.
Exit 0: no violation within the bounds. Exit 1: a counterexample that the real,
uninstrumented code confirms. Exit 2: no verdict.
'''

import argparse
import hashlib
import importlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SYMX_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
VENV = '/opt/venv/bin/python'


def replay(jobs, timeout=600):
    py = VENV if os.path.exists(VENV) else sys.executable
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', LANG='C.UTF-8', PYTHONHASHSEED='0', SYMX_REPO=REPO)
    env.pop('LC_ALL', None)
    p = subprocess.run([py, os.path.join(HERE, 'replay.py')], input=json.dumps(jobs), env=env,
                       capture_output=True, text=True, timeout=timeout, cwd=HERE)
    if p.returncode != 0:
        raise RuntimeError('replay failed: ' + p.stderr[-3000:])
    return json.loads(p.stdout)


def write_replay(pid, job, msg):
    d = os.path.join(HERE, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(job, sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(d, f'{pid}-{h}.json')
    with open(path, 'w', encoding='utf-8') as fh:
        json.dump({**job, 'property': pid, 'violation': msg}, fh, indent=1)
        fh.write('\n')
    return path


def short(x, n=600):
    s = json.dumps(x, ensure_ascii=True)
    return s if len(s) <= n else s[:n] + '...'


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--harness', default='')
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('-v', action='store_true')
    opts = ap.parse_args()
    tier = 'thorough' if opts.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()

    from symx import loader
    import importlib.util
    yaml = importlib.util.find_spec('yaml').submodule_search_locations[0]
    loader.install({'crazy_complete': os.path.join(REPO, 'crazy_complete'), 'yaml': yaml,
                    'models': os.path.join(HERE, 'models'),
                    'harness': os.path.join(HERE, 'harness')})
    from symx.explore import explore
    import specs
    prop = specs.PROPS[opts.prop]

    with open(os.path.join(HERE, 'known_findings.json'), encoding='utf-8') as fh:
        known = [k for k in json.load(fh)['known'] if prop.id in [k['property']] + k.get('also', [])]
    known_ids = [k['id'] for k in known]

    problems = []
    violations = []
    report = []
    totals = {}
    functions = set()
    samples_out = []
    validated = 0

    # listed findings still have to fail on the real code
    if known:
        for k, r in zip(known, replay([{'harness': k['harness'], 'model': k['model'],
                                        'params': k.get('params', {})} for k in known])):
            if r['status'] == 'violation':
                print(f'KNOWN-FINDING: property={prop.id} {k["what"]}', flush=True)
            else:
                print(f'note: listed finding {k["id"]} no longer fails ({r["status"]})', flush=True)

    for h in prop.harnesses:
        if opts.harness and opts.harness not in h.label():
            continue
        params = h.params(tier)
        params['__known'] = known_ids
        params['__prefix'] = REPO.rstrip('/') + '/'
        mod, fn = h.target.split(':')
        try:
            f = getattr(importlib.import_module(mod), fn)
        except Exception as e:
            import traceback
            traceback.print_exc()
            problems.append(f'{h.label()}: cannot load: {type(e).__name__}: {e}')
            continue
        r = explore(f, params, workers=opts.workers, timeout=h.timeout[tier == 'thorough'],
                    nsamples=h.nsamples, seed=seed)
        pub = {k: v for k, v in params.items() if not k.startswith('__')}
        mk = lambda model: {'harness': h.target, 'model': model, 'params': pub, 'known': known_ids}
        for e, tb in dict(r.errors).items():
            problems.append(f'{h.label()}: {e}')
            print(f'[{h.label()}] {e}\n{tb}', file=sys.stderr, flush=True)
        confirmed = 0
        if r.unsupported and not r.violations:
            # inputs on which the encoding gives up, decided by the real code
            jobs = [mk(m) for _, m in r.unsupported[:40]]
            for (msg, model), c, job in zip(r.unsupported, replay(jobs), jobs):
                if c['status'] == 'violation':
                    confirmed += 1
                    violations.append((job, c['msg']))
                    print(f'[{h.label()}] violation on the real code: {c["msg"]}\n  input: {short(model)}\n  symbolic: {msg}', flush=True)
                    break
        if r.violations:
            jobs = [mk(m) for _, m in r.violations]
            for (msg, model), c, job in zip(r.violations, replay(jobs), jobs):
                if c['status'] == 'violation':
                    confirmed += 1
                    violations.append((job, c['msg']))
                    print(f'[{h.label()}] violation: {c["msg"]}\n  input: {short(model)}\n  symbolic: {msg}', flush=True)
                    break
                problems.append(f'{h.label()}: counterexample did not reproduce ({c["status"]} '
                                f'{c.get("msg", "")[-1500:]}): {msg}: {short(model)}')
        elif not r.errors:
            for c in h.covers:
                if not r.covers.get(c):
                    problems.append(f'{h.label()}: vacuous: cover {c!r} not reached')
            if r.stats.paths == 0:
                problems.append(f'{h.label()}: vacuous: no path')
        # translator validation: the real code must do on each sample what the encoding says
        if r.samples and not confirmed:
            jobs = [mk(m) for m, _, _ in r.samples]
            for (m, obs, cov), c, job in zip(r.samples, replay(jobs), jobs):
                if c['status'] == 'violation':
                    violations.append((job, c['msg']))
                    print(f'[{h.label()}] violation on the real code: {c["msg"]}\n  input: {short(m)}', flush=True)
                    break
                if c['status'] != 'ok':
                    problems.append(f'{h.label()}: sample does not replay: {c["status"]} {c.get("msg", "")[-1500:]}: {short(m)}')
                    break
                if json.loads(json.dumps(obs)) != c['observed'] or cov != c['covered']:
                    problems.append(f'{h.label()}: encoding and real code differ on {short(m)}: '
                                    f'{short(obs)} {cov} / {short(c["observed"])} {c["covered"]}')
                    break
                validated += 1
            for m, obs, _ in r.samples[:2]:
                samples_out.append({'harness': h.target, 'input': m, 'observed': json.loads(short(obs, 1 << 60))
                                    if len(json.dumps(obs)) < 1500 else short(obs, 1500)})
        d = r.stats.as_dict()
        for k, v in d.items():
            totals[k] = totals.get(k, 0) + v
        functions |= r.functions
        report.append({'harness': h.target, 'params': pub, 'bounds': h.bounds, 'paths': d['paths'],
                       'infeasible_or_filtered': d['aborted'], 'branch_decisions': d['branches'],
                       'solver_queries': d['queries'], 'solver_s': round(d['solver_s'], 2),
                       'assertions': d['checks'], 'assertions_decided_by_query': d['assert_queries'],
                       'covers': r.covers, 'complete': r.complete, 'wall_s': round(r.wall, 2)})
        print(f'[{h.label()}] paths={d["paths"]} aborted={d["aborted"]} queries={d["queries"]} '
              f'solver={d["solver_s"]:.1f}s checks={d["checks"]} wall={r.wall:.1f}s '
              f'{"complete" if r.complete else "NOT COMPLETE"}'
              + (f' covers={r.covers}' if opts.v else ''), flush=True)
        if violations:
            break

    wall = time.time() - t0
    funcs = sorted(f'{a}:{b}' for a, b in functions)
    ev = {
        'property': prop.id, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': totals.get('paths', 0),
            'transitions': totals.get('branches', 0),
            'traces_validated_against_impl': validated,
            'samples': samples_out[:12],
            'exhaustive': not problems and not violations,
            'explanation': 'states = symbolic paths decided to the end; transitions = branch decisions '
                           'taken with a solver query; every feasible path within the stated bounds was '
                           'followed, each assertion decided for all values on its path; '
                           'traces_validated_against_impl = path models re-run on the uninstrumented '
                           'code (and the real shell where one is involved) with equal observations.',
            'functions_encoded': funcs,
            'solver': {'name': 'z3', 'queries': totals.get('queries', 0),
                       'assertion_queries': totals.get('assert_queries', 0),
                       'seconds': round(totals.get('solver_s', 0), 2)},
            'harnesses': report,
            'outside_the_bounds': prop.outside,
        },
        'assumptions': prop.assumptions,
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    if not opts.harness:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', prop.id + '.json'), 'w', encoding='utf-8') as fh:
            json.dump(ev, fh, indent=1, ensure_ascii=True)
            fh.write('\n')

    if violations:
        job, msg = violations[0]
        path = write_replay(prop.id, job, msg)
        print(f'VIOLATION property={prop.id} replay={path}', flush=True)
        sys.exit(1)
    if problems:
        for p in problems:
            print('INCONCLUSIVE ' + p, flush=True)
        sys.exit(2)
    print(f'OK property={prop.id} paths={totals.get("paths", 0)} queries={totals.get("queries", 0)} wall={wall:.1f}s')
    sys.exit(0)


if __name__ == '__main__':
    main()
