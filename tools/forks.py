'''Where does a harness fork? forks.py module:function 'params json' [seconds]'''
import collections, importlib, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMX_REPO', '/repo')
from symx import loader, core
loader.install({'crazy_complete': REPO + '/crazy_complete', 'models': HERE + '/models', 'harness': HERE + '/harness'})
from symx import explore
cnt = collections.Counter()
orig = core.Engine.branch
def branch(self, e):
    if e is not True and e is not False and self.quick(e) is None and self.pos >= len(self.trace):
        st = [f for f in traceback.extract_stack(limit=14) if '/symx/' not in f.filename]
        cnt[' < '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in st[-1:-4:-1])] += 1
    return orig(self, e)
core.Engine.branch = branch
mod, fn = sys.argv[1].split(':')
f = getattr(importlib.import_module(mod), fn)
params = json.loads(sys.argv[2]); params['__known'] = []; params['__prefix'] = REPO + '/'
sys.setrecursionlimit(20000)
eng = core.Engine()
eng.start_task(())
end = time.time() + (float(sys.argv[3]) if len(sys.argv) > 3 else 10)
n = 0
while True:
    v, sx = explore._run_harness(f, eng, params)
    n += 1
    if os.environ.get("SHOW"): print(eng.model(), sx.observed)
    if v is not None:
        print('violation', v.msg, v.model)
    if time.time() > end or not eng.next_path():
        break
print(n, eng.stats.as_dict())
for k, v in cnt.most_common(25): print(v, k)
