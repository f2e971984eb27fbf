"""python3 mk/seed.py new ID PROPERTY FILE <<< 'needs\nbreaks'   after editing /tmp/seedw/repo:  makes seeded/ID/patch.diff
   python3 mk/seed.py check ID [--tests]       demo on clean and patched copy, stable tests, and the property's check on the patched copy
"""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedw'


def sh(cmd, cwd=None, env=None):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def fresh():
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    sh('cp -a /repo %s/repo' % W)
    sh('git checkout -q -- .', W + '/repo')


def check(i, tests):
    d = os.path.join(V, 'seeded', i)
    meta = json.load(open(d + '/meta.json'))
    fresh()
    r = W + '/repo'
    os.makedirs(W + '/demo')
    for f in os.listdir(d):
        if f.endswith(('.diff', '.patch')) or f == 'meta.json':
            continue
        shutil.copy(os.path.join(d, f), W + '/demo')
    a = sh('bash %s/demo/demo.sh' % W, r)
    p = sh('git apply %s/patch.diff' % d, r)
    b = sh('bash %s/demo/demo.sh' % W, r)
    out = '%s %s: demo clean=%d patched=%d apply=%d' % (i, meta['property'], a.returncode, b.returncode, p.returncode)
    if a.returncode:
        out += '\n' + a.stdout[-800:]
    if '-v' in sys.argv:
        out += '\n' + b.stdout[-500:]
    if tests and not a.returncode and b.returncode:
        t = sh('/opt/venv/bin/python -m pytest -q -x -n 6 -p no:cacheprovider tests 2>&1 | tail -3', r, {'PYTHONPATH': r})
        out += ' tests: ' + t.stdout.strip().split('\n')[-1]
    c = sh('python3 -m sa.run %s --repo %s' % (meta['property'], r), V)
    out += ' check=%d' % c.returncode
    if c.returncode == 1:
        out += ' [' + ' '.join(l.split()[1] for l in c.stdout.split('\n') if l.strip().startswith('violated'))[:200] + ']'
    else:
        out += '\n' + c.stdout[:600]
    print(out)


if sys.argv[1] == 'fresh':
    fresh()
elif sys.argv[1] == 'new':
    i, prop = sys.argv[2], sys.argv[3]
    d = os.path.join(V, 'seeded', i)
    os.makedirs(d, exist_ok=True)
    diff = sh('git diff', W + '/repo').stdout
    open(d + '/patch.diff', 'w').write(diff)
    needs, breaks = sys.stdin.read().strip().split('\n')[:2]
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    sh('git checkout -q -- .', W + '/repo')
else:
    ids = [x for x in sys.argv[2:] if not x.startswith('-')] or sorted(os.listdir(os.path.join(V, 'seeded')))
    for i in ids:
        check(i, '--tests' in sys.argv)
