#!/opt/venv/bin/python
"""try_mutant.py FILE 'old' 'new' CHECK [CHECK...]: run checks on a mutated
scratch copy of /repo"""
import os, shutil, subprocess, sys, tempfile
f, old, new = sys.argv[1:4]
d = tempfile.mkdtemp(prefix='mut')
try:
    shutil.copytree('/repo', d + '/repo', ignore=shutil.ignore_patterns('.git'))
    p = d + '/repo/' + f
    s = open(p).read()
    old = old.encode().decode('unicode_escape')
    new = new.encode().decode('unicode_escape')
    assert s.count(old) >= 1, 'not found'
    open(p, 'w').write(s.replace(old, new, 1))
    for c in sys.argv[4:]:
        r = subprocess.run(['/opt/venv/bin/python', '/verif/run_check.py', c],
                           env=dict(os.environ, RF_REPO=d + '/repo', RF_EVIDENCE=d + '/ev'),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(c, 'exit', r.returncode, '|', '\n'.join(r.stdout.splitlines()[-6:])[:900])
finally:
    shutil.rmtree(d)
