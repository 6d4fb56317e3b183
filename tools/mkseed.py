"""mkseed.py SPECS.py: SPECS.py defines S = {id: dict(property, file, old, new | edits, needs, breaks, demo)}; writes seeded/<id>.
The patch is made in a scratch copy of /repo."""
import json, os, runpy, shutil, subprocess, sys, tempfile
t = tempfile.mkdtemp()
repo = os.path.join(t, 'repo')
subprocess.check_call(['git', 'clone', '-q', '/repo', repo])
for sid, d in runpy.run_path(sys.argv[1])['S'].items():
    edits = d['edits'] if 'edits' in d else [(d['file'], d['old'], d['new'])]
    for f, old, new in edits:
        p = os.path.join(repo, f)
        s = open(p).read()
        assert s.count(old) == 1, (sid, f, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    out = '/verif/seeded/' + sid
    os.makedirs(out, exist_ok=True)
    diff = subprocess.check_output(['git', '-C', repo, 'diff']).decode()
    subprocess.check_call(['git', '-C', repo, 'checkout', '-q', '--', '.'])
    open(out + '/patch.diff', 'w').write(diff)
    json.dump(dict(property=d['property'], needs=d['needs'], what_it_breaks=d['breaks']), open(out + '/meta.json', 'w'), indent=1)
    open(out + '/demo.py', 'w').write(d['demo'].lstrip('\n'))
    open(out + '/demo.sh', 'w').write('#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1\n'
                                      'T=$(mktemp -d)\nexport THEANO_FLAGS=base_compiledir=$T/theano,cxx=,optimizer=None\n'
                                      'TMPDIR=$T /opt/venv/bin/python -W ignore "$d/demo.py"\nrc=$?\nrm -rf "$T"\nexit $rc\n')
shutil.rmtree(t)
