"""tools/seed.py <id> <property> "<needs>" "<breaks>" : record /repo's working-tree change as seeded/<id> and undo it.
tools/seed.py try <id>... : check demo, stable tests and the property's check against the planted bug."""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def record(i, prop, needs, breaks):
    d = f'{V}/seeded/{i}'
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
    assert diff
    open(f'{d}/patch.diff', 'w').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
    shutil.copytree(f'{V}/stubs', f'{d}/stubs', dirs_exist_ok=True, ignore=shutil.ignore_patterns('__pycache__'))
    open(f'{d}/demo.sh', 'w').write('''#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export PYTHONPATH="$PYTHONPATH:$D/stubs" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$D/demo.py"
''')
    os.chmod(f'{d}/demo.sh', 0o755)
    sh('git -C /repo checkout -- .')


def attempt(i):
    d = f'{V}/seeded/{i}'
    prop = json.load(open(f'{d}/meta.json'))['property']
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo dirty'
    a = sh(f'bash {d}/demo.sh', cwd='/repo')
    r = sh(f'git -C /repo apply {d}/patch.diff')
    assert r.returncode == 0, r.stdout
    try:
        sh('bash /opt/vp/build.sh')
        t = sh('bash /opt/vp/test.sh /tmp/seed-t.json')
        got = set(json.load(open('/tmp/seed-t.json'))['passed'])
        want = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        b = sh(f'bash {d}/demo.sh', cwd='/repo')
        c = sh(f'{V}/run.sh {prop}', cwd=V)
    finally:
        sh('git -C /repo checkout -- .')
    print(f'{i} [{prop}] demo clean={a.returncode} planted={b.returncode} tests={"ok" if want <= got else "BROKEN"} '
          f'check={c.returncode}')
    if a.returncode:
        print(a.stdout[-1500:])
    if '-v' in sys.argv or c.returncode != 1:
        print(b.stdout[-600:])
    print('   ' + '\n   '.join(c.stdout.strip().splitlines()[-5:])[:1200])


if sys.argv[1] == 'try':
    for i in sys.argv[2:]:
        if i != '-v':
            attempt(i)
else:
    record(*sys.argv[1:5])
