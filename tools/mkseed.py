"""Create planted bugs: python3 tools/mkseed.py SPECFILE...

A spec file defines BUGS = [dict(id, property, edits=[(file, old, new)],
needs, breaks, demo)]. Each bug is made in a scratch copy of /repo, where the
demonstration must pass before and fail after, and the stable tests pass.
"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SR = '/tmp/w/sr'
SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=2
export PYTHONPATH="$PWD/src/hookeai"
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True,
                          text=True, **kw)


def stable(cwd):
    want = json.load(open('/opt/vp/BASELINE.json'))['stable']
    env = dict(os.environ, PYTHONPATH=cwd + '/src/hookeai',
               PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg')
    r = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider --continue-on-collection-errors tests/fetorch/element tests/fetorch/math tests/fetorch/structure '
           '-rA 2>&1 | grep ^PASSED', cwd, env=env)
    got = r.stdout
    miss = [w for w in want if w.split('::')[1] not in got]
    return miss


def main():
    only = os.environ.get('ONLY')
    for spec in sys.argv[1:]:
        ns = {}
        exec(open(spec).read(), ns)
        for b in ns['BUGS']:
            if only and b['id'] not in only.split(','):
                continue
            shutil.rmtree(SR, ignore_errors=True)
            subprocess.run(['cp', '-a', '/repo', SR], check=True)
            out = os.path.join(HERE, 'seeded', b['id'])
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            open(out + '/demo.sh', 'w').write(SH)
            open(out + '/demo.py', 'w').write(b['demo'])
            os.chmod(out + '/demo.sh', 0o755)
            r0 = sh(f'bash {out}/demo.sh', SR)
            for f, old, new in b['edits']:
                p = os.path.join(SR, 'src/hookeai', f)
                s = open(p).read()
                assert s.count(old) == 1, (b['id'], f, s.count(old))
                open(p, 'w').write(s.replace(old, new))
            r1 = sh(f'bash {out}/demo.sh', SR)
            miss = stable(SR)
            d = sh('git diff', SR).stdout
            open(out + '/patch.diff', 'w').write(d)
            json.dump({'property': b['property'], 'needs': b['needs'],
                       'what_it_breaks': b['breaks']},
                      open(out + '/meta.json', 'w'), indent=1)
            good = r0.returncode == 0 and r1.returncode != 0 and not miss
            print(b['id'], b['property'], 'OK' if good else 'BAD',
                  r0.returncode, r1.returncode, miss,
                  (r1.stderr.strip().splitlines() or ['-'])[-1][:200])
            if not good:
                print(r0.stdout[-800:], r0.stderr[-1500:])
                shutil.rmtree(out)
            shutil.rmtree(SR)


main()
