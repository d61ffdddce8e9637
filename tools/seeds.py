'''tools/seeds.py [ID...] - run the quick check of each planted bug's property against a copy of /repo with the bug.

SYMX_REPO makes check.py read that copy; /repo itself is not touched.
'''

import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
    for i in ids:
        d = os.path.join(HERE, 'seeded', i)
        prop = json.load(open(os.path.join(d, 'meta.json'), encoding='utf-8'))['property']
        copy = '/tmp/seedrepo'
        shutil.rmtree(copy, ignore_errors=True)
        subprocess.run(['git', 'clone', '-q', '/repo', copy], check=True)
        subprocess.run(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=copy, check=True)
        t = time.time()
        p = subprocess.run(['python3-vt', 'check.py', prop, '--harness', ''], cwd=HERE, capture_output=True, text=True,
                           env=dict(os.environ, SYMX_REPO=copy))
        v = [x for x in p.stdout.splitlines() if x.startswith(('VIOLATION', 'INCONCLUSIVE'))]
        print(f'{i}: {"caught" if p.returncode == 1 and v else "MISSED rc=%d" % p.returncode} {time.time() - t:.0f}s',
              '' if p.returncode == 1 else v[:2], flush=True)
        shutil.rmtree(copy, ignore_errors=True)


main()
