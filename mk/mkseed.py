"""python3 mk/mkseed.py FILE: FILE holds SEEDS = {id: dict(prop, file/edits, needs, breaks, demo)}; writes seeded/<id>/."""
import json
import os
import subprocess
import sys
import shutil

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedw'
HEAD = '''import sys, os
sys.path.insert(0, os.getcwd())
from pdfmajor.interpreter.commands import process_command_stream, PDFStateStack
from pdfmajor.parser.PDFStream import PDFStream
'''
ns = {'HEAD': HEAD}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for i, s in ns['SEEDS'].items():
    if only and i not in only:
        continue
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    subprocess.run('cp -a /repo %s/repo; cd %s/repo && git checkout -q -- .' % (W, W), shell=True, check=True)
    for f, old, new in s['edits']:
        p = W + '/repo/pdfmajor/' + f
        t = open(p, newline='').read()
        assert t.count(old) == 1, (i, f, t.count(old), old)
        open(p, 'w', newline='').write(t.replace(old, new))
    d = os.path.join(V, 'seeded', i)
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run(['git', 'diff'], cwd=W + '/repo', stdout=subprocess.PIPE).stdout
    open(d + '/patch.diff', 'wb').write(diff)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.py', 'w').write(HEAD + s['demo'].strip('\n') + '\n')
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n/opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    subprocess.run([sys.executable, os.path.join(V, 'mk', 'seed.py'), 'check', i, '--tests'] + (['-v'] if s.get('v') else []))
shutil.rmtree(W, ignore_errors=True)
