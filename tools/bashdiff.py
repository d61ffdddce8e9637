'''Differential test of the Bash model against the real Bash on generated scripts.'''
import glob, json, os, random, subprocess, sys, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, '/repo')
import yaml
from models import bashrun, shells
class C: symbolic = False
class S: symbolic = True
rng = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 1)
N = int(sys.argv[2]) if len(sys.argv) > 2 else 20
pat = sys.argv[3] if len(sys.argv) > 3 else ''
files = sorted(glob.glob('/repo/examples/*.yaml') + glob.glob('/repo/test/**/*.yaml', recursive=True))
bad = 0; ok = 0; uns = {}
for f in files:
    if pat not in f: continue
    p = subprocess.run(['/opt/venv/bin/python', '/repo/crazy-complete', 'bash', f], cwd='/repo', capture_output=True, text=True)
    if p.returncode: continue
    script = p.stdout
    try:
        docs = [d for d in yaml.safe_load_all(open(f)) if d]
    except Exception:
        continue
    opts = []; vals = ['a', 'b', 'x', 'foo', '', '-', '--']
    for d in docs:
        if not isinstance(d, dict): continue
        vals += str(d.get('prog', '')).split()[1:]
        for o in d.get('options') or []:
            for s in o.get('option_strings', []):
                opts += [s, s[:3], s + '=', s + '=a', s + 'a', s[:-1]]
            c = o.get('complete')
            if c and c[0] == 'choices': vals += [str(x) for x in c[1]][:5]
    if not opts: opts = ['-x']
    for i in range(N):
        ws = ['prog']
        for _ in range(rng.randint(1, 4)):
            ws.append(rng.choice(opts if rng.random() < .6 else vals))
        if rng.random() < .3:
            k = rng.randrange(1, len(ws)); w = ws[k]
            q = rng.choice(['"%s"', "'%s'", '\\%s', '"%s', "%s'", '%s:', '%s,x']); ws[k] = q % w
        try:
            m = bashrun.complete(S, script, ws)
        except BaseException as e:
            k = f'{type(e).__name__}: {str(e)[:150]}'
            if k not in uns: uns[k] = (f, ws); traceback.print_exc(limit=-3) if '-v' in sys.argv else None
            continue
        r = bashrun.complete(C, script, ws)
        if (m.status, sorted(m.replies), m.opts.split()) != (r.status, sorted(r.replies), r.opts.split()):
            bad += 1
            if bad < 15: print('DIFF', f, ws, '\n  model', m.status, m.replies[:8], m.opts, '\n  real ', r.status, r.replies[:8], r.opts)
        else: ok += 1
print('ok', ok, 'bad', bad)
for k, v in uns.items(): print('UNSUP', k, v)
