'''Runs harnesses concretely on the real, uninstrumented code of /repo.

stdin: JSON list of {"harness": "module:function", "model": {...}, "params": {...}}
stdout: JSON list of {"status": "ok|violation|diverged|error", "msg", "observed", "covered"}

Also a replay tool:  replay.py FILE   (a file written by check.py) prints the
verdict and exits 1 if the violation reproduces.
'''

import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SYMX_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path[:0] = [REPO, HERE]

from symx.ctx import ConcreteCtx, ReplayDiverged, PropertyFailed   # noqa: E402


def plain(x):
    if isinstance(x, dict):
        return {'__dict__': [[plain(k), plain(v)] for k, v in x.items()]}
    if isinstance(x, tuple) and len(x) == 2 and x[0] == '__set__':
        return ['__set__', sorted(x[1])]
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    return x


def run_one(job):
    mod, fn = job['harness'].split(':')
    sx = ConcreteCtx(job['model'], job.get('params'), job.get('known', []))
    res = {}
    old = sys.getrecursionlimit()
    try:
        f = getattr(importlib.import_module(mod), fn)
        f(sx)
        res['status'] = 'ok'
    except PropertyFailed as e:
        res['status'], res['msg'] = 'violation', e.msg
    except ReplayDiverged as e:
        res['status'], res['msg'] = 'diverged', str(e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        own = [f for f in tb if f.filename.startswith(REPO + '/')]
        if own:
            res['status'] = 'violation'
            res['msg'] = f'unexpected {type(e).__name__}: {e} (at {os.path.basename(own[-1].filename)}:{own[-1].lineno})'
        else:
            res['status'], res['msg'] = 'error', traceback.format_exc()
    finally:
        sys.setrecursionlimit(old)
    res['observed'] = plain(sx.observed)
    res['covered'] = sx.covered
    return res


def main():
    if len(sys.argv) > 1:
        with open(sys.argv[1], encoding='utf-8') as fh:
            job = json.load(fh)
        r = run_one(job)
        print(json.dumps({'input': job['model'], **r}, indent=1, ensure_ascii=True))
        sys.exit(1 if r['status'] == 'violation' else 0)
    jobs = json.load(sys.stdin)
    import contextlib
    real = sys.stdout
    with contextlib.redirect_stdout(sys.stderr):
        if len(jobs) > 8:
            import concurrent.futures as cf
            import multiprocessing as mp
            with cf.ProcessPoolExecutor(8, mp_context=mp.get_context('fork')) as ex:
                out = list(ex.map(run_one, jobs, chunksize=max(1, len(jobs) // 32)))
        else:
            out = [run_one(j) for j in jobs]
    json.dump(out, real)


if __name__ == '__main__':
    main()
