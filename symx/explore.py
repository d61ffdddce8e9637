'''Parallel exhaustive exploration of one harness.'''

import multiprocessing as mp
import os
import queue
import random
import sys
import time
import traceback

from . import core
from .core import Engine, EngineError, PropertyFailed, Stats
from .ctx import SymCtx


class Result:
    def __init__(self):
        self.stats = Stats()
        self.violations = []        # (msg, model)
        self.errors = []
        self.unsupported = []       # (msg, model)
        self.covers = {}
        self.samples = []           # (model, observed, covered)
        self.functions = set()      # (file, qualified name) of executed code of /repo
        self.wall = 0.0
        self.complete = False


def concretise(eng, x, vals):
    from .values import SymStr, SymBool, SymInt
    if isinstance(x, SymStr):
        return ''.join(vals(i) if isinstance(i, int) else i for i in x.it)
    if isinstance(x, SymBool):
        return ev(x.e, vals)
    if isinstance(x, SymInt):
        return x.k + sum(c * vals(v) for v, c in x.lin)
    if isinstance(x, dict):
        return {'__dict__': [[concretise(eng, k, vals), concretise(eng, v, vals)] for k, v in x.items()]}
    if isinstance(x, tuple) and len(x) == 2 and x[0] == '__set__':
        return ['__set__', sorted(concretise(eng, y, vals) for y in x[1])]
    if isinstance(x, (list, tuple)):
        return [concretise(eng, y, vals) for y in x]
    return x


def plain(x):
    '''Native counterpart of concretise() for replayed observations.'''
    if isinstance(x, dict):
        return {'__dict__': [[plain(k), plain(v)] for k, v in x.items()]}
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    return x


def ev(e, vals):
    if e is True or e is False:
        return e
    t = e[0]
    if t == 'm':
        return bool(e[2] >> core.CIDX[vals(e[1])] & 1)
    if t == 'ce':
        return vals(e[1]) == vals(e[2])
    if t == 'cl':
        return vals(e[1]) < vals(e[2])
    if t == 'b':
        return vals(e[1])
    if t == 'not':
        return not ev(e[1], vals)
    if t == 'and':
        return all(ev(x, vals) for x in e[1])
    if t == 'or':
        return any(ev(x, vals) for x in e[1])
    s = sum(c * vals(v) for v, c in e[1])
    return s <= e[2] if t == 'le' else s == e[2]


def _run_harness(fn, eng, params):
    '''One path; returns (violation, ctx).'''
    box = []

    def body():
        sx = SymCtx(eng, params)
        box.append(sx)
        try:
            fn(sx)
        except Exception as e:  # an exception of the code under test
            if os.environ.get('SYMX_DEBUG'):
                traceback.print_exc()
            tb = e.__traceback__
            last = None
            while tb:
                fnm = tb.tb_frame.f_code.co_filename
                if '/symx/' not in fnm:
                    last = f'{os.path.basename(fnm)}:{tb.tb_lineno}'
                tb = tb.tb_next
            from . import rt
            try:
                text = rt.to_str(e)
                text = text if isinstance(text, str) else repr(text)
            except BaseException:
                text = ''
            raise PropertyFailed(f'unexpected {type(e).__name__}: {text} (at {last})')
    v = eng.run_path(body)
    return v, box[0]


FUNCS = set()


def _watch_functions(prefix):
    '''Record every function of the code under test that starts executing.'''
    mon = sys.monitoring
    tid = mon.COVERAGE_ID
    if mon.get_tool(tid) is not None:
        return

    def on_start(code, _off):
        if code.co_filename.startswith(prefix) and not code.co_name.startswith('<'):
            FUNCS.add((code.co_filename[len(prefix):], code.co_qualname))
        return mon.DISABLE
    mon.use_tool_id(tid, 'symx')
    mon.register_callback(tid, mon.events.PY_START, on_start)
    mon.set_events(tid, mon.events.PY_START)


def _worker(wid, fn, params, tasks, results, outstanding, hungry, stop, deadline, nsamples, seed, max_viol):
    eng = Engine()
    rng = random.Random(seed * 1000 + wid)
    covers = {}
    samples = []
    seen = 0
    stuck = 0
    sys.setrecursionlimit(20000)
    _watch_functions(params.get('__prefix', '/repo/'))
    try:
        while not stop.value:
            try:
                prefix = tasks.get(timeout=0.02)
            except queue.Empty:
                if outstanding.value == 0:
                    break
                continue
            with hungry.get_lock():
                hungry.value -= 1
            eng.start_task(prefix)
            first = True
            while first or eng.next_path():
                first = False
                v, sx = _run_harness(fn, eng, params)
                for c in sx.covered:
                    covers[c] = covers.get(c, 0) + 1
                if eng.unsupported is not None:
                    results.put(('unsupported',) + eng.unsupported)
                    stuck += 1
                    if stuck >= 5:
                        stop.value = 1
                elif v is not None:
                    results.put(('violation', v.msg, v.model))
                    stop.value = 1
                elif eng.last_ok and nsamples:
                    seen += 1
                    slot = len(samples) if len(samples) < nsamples else rng.randrange(seen)
                    if slot < nsamples:
                        model = eng.model()
                        vals = eng.last_vals
                        obs = [concretise(eng, x, vals) for x in sx.observed]
                        s = (model, obs, list(sx.covered))
                        if slot == len(samples):
                            samples.append(s)
                        else:
                            samples[slot] = s
                if stop.value:
                    break
                if time.time() > deadline:
                    raise EngineError('time limit of the harness exceeded; exploration incomplete')
                if hungry.value < 2 * params.get('__workers', 8):
                    p = eng.donate()
                    if p is not None:
                        with outstanding.get_lock():
                            outstanding.value += 1
                        with hungry.get_lock():
                            hungry.value += 1
                        tasks.put(p)
            with outstanding.get_lock():
                outstanding.value -= 1
    except EngineError as e:
        tb = traceback.format_exc(limit=-8)
        results.put(('error', f'{type(e).__name__}: {e}', tb))
        stop.value = 1
    except BaseException as e:
        results.put(('error', f'engine crash {type(e).__name__}: {e}', traceback.format_exc(limit=-12)))
        stop.value = 1
    results.put(('done', eng.stats.as_dict(), covers, samples, sorted(FUNCS)))


def explore(fn, params=None, workers=None, timeout=600, nsamples=40, seed=1):
    params = dict(params or {})
    workers = workers or min(8, os.cpu_count() or 1)
    params['__workers'] = workers
    res = Result()
    t0 = time.time()
    m = mp.get_context('fork')
    tasks = m.Queue()
    results = m.Queue()
    outstanding = m.Value('i', 1)
    hungry = m.Value('i', 1)        # number of queued tasks
    stop = m.Value('i', 0)
    tasks.put([])
    per = (nsamples + workers - 1) // workers
    ps = []
    for w in range(workers):
        p = m.Process(target=_worker, args=(w, fn, params, tasks, results, outstanding, hungry, stop,
                                            t0 + timeout, per, seed, 1), daemon=True)
        p.start()
        ps.append(p)
    done = 0
    while done < workers:
        try:
            r = results.get(timeout=5)
        except queue.Empty:
            if any(not p.is_alive() and p.exitcode not in (0, None) for p in ps):
                res.errors.append(('worker died (out of memory?)', ''))
                stop.value = 1
                for p in ps:
                    p.kill()
                break
            continue
        if r[0] == 'violation':
            res.violations.append((r[1], r[2]))
        elif r[0] == 'unsupported':
            res.errors.append((r[1], r[3]))
            res.unsupported.append((r[1], r[2]))
        elif r[0] == 'error':
            res.errors.append((r[1], r[2]))
        else:
            done += 1
            res.stats.add(r[1])
            for c, n in r[2].items():
                res.covers[c] = res.covers.get(c, 0) + n
            res.samples.extend(r[3])
            res.functions.update(r[4])
    # drain so that the processes can exit
    for p in ps:
        p.join(timeout=1)
        if p.is_alive():
            p.kill()
    tasks.cancel_join_thread()
    res.wall = time.time() - t0
    res.complete = not res.errors and not res.violations
    return res
