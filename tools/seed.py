#!/opt/venv/bin/python
"""seed.py SPEC.py: make seeded bugs in /verif/seeded

SPEC.py defines SEEDS, a list of dicts with id, property, edits (list of
(file, old, new)), needs, breaks, demo (python code).  Everything is tried out
in a scratch copy of /repo."""
import json, os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/bash
# exit 0: as documented, 1: broken
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 %s -W ignore "$(dirname "$0")/demo.py"
''' % PY

def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)

def make(s):
    out = []
    d = tempfile.mkdtemp(prefix='seed')
    try:
        repo = d + '/repo'
        subprocess.check_call(['cp', '-a', '/repo', repo])
        sd = '/verif/seeded/' + s['id']
        os.makedirs(sd, exist_ok=True)
        with open(sd + '/demo.py', 'w') as f:
            f.write(s['demo'].lstrip('\n'))
        with open(sd + '/demo.sh', 'w') as f:
            f.write(DEMO)
        os.chmod(sd + '/demo.sh', 0o755)
        with open(sd + '/meta.json', 'w') as f:
            json.dump({'property': s['property'], 'needs': s['needs'],
                       'what_it_breaks': s['breaks']}, f, indent=1)
        r0 = run(['bash', sd + '/demo.sh'], repo)
        for fn, old, new in s['edits']:
            p = repo + '/' + fn
            t = open(p).read()
            if t.count(old) != 1:
                return [s['id'], 'old text found %d times' % t.count(old)]
            open(p, 'w').write(t.replace(old, new))
            # lines must be original
        diff = run(['git', 'diff'], repo).stdout
        with open(sd + '/patch.diff', 'w') as f:
            f.write(diff)
        base = run(['git', 'log', '--format=%H', '--grep=^base'], repo).stdout.split()[-1]
        added = set()
        for fn, old, new in s['edits']:
            orig = run(['git', 'show', base + ':' + fn], repo).stdout
            for l in diff.splitlines():
                if l.startswith('-') and not l.startswith('---') and \
                        l[1:] not in orig.splitlines():
                    added.add(l)
        r1 = run(['bash', sd + '/demo.sh'], repo)
        t = run(PY + ' -m pytest -q -x -p no:cacheprovider --timeout=300 '
                '-o python_functions=__none__ rf/tests', repo, shell=True)
        tests = t.stdout.strip().splitlines()[-1]
        bad = [] if r0.returncode == 0 else ['DEMO FAILS ON UNCHANGED TREE ' + r0.stdout[-600:]]
        if r1.returncode == 0: bad.append('DEMO PASSES WITH PATCH')
        if t.returncode: bad.append('TESTS: ' + t.stdout[-700:])
        if added: bad.append('NOT ORIGINAL LINES %s' % added)
        checks = []
        if '--nocheck' not in sys.argv:
            r = run([PY, '/verif/run_check.py', s['property']], '/verif',
                    env=dict(os.environ, RF_REPO=repo, RF_EVIDENCE=d + '/ev'))
            checks = [s['property'], 'exit', r.returncode] + \
                [l[:160] for l in r.stdout.splitlines()[-2:]]
        return [s['id'], 'BAD' if bad else 'ok', bad, tests, r1.stdout[-200:], checks]
    finally:
        shutil.rmtree(d)

seeds = runpy.run_path(sys.argv[1])['SEEDS']
only = [a for a in sys.argv[2:] if a[0] != '-']
seeds = [s for s in seeds if not only or s['id'] in only]
with ThreadPoolExecutor(4) as ex:
    for o in ex.map(make, seeds):
        print(*o, sep='\n   ')
