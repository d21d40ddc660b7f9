#!/opt/venv/bin/python
"""try_sed.py FILE CHECK[,CHECK] old new [old new ...]: several replacements
(all occurrences) in a scratch copy, then run checks"""
import os, shutil, subprocess, sys, tempfile
f, checks = sys.argv[1:3]
d = tempfile.mkdtemp(prefix='mut')
try:
    shutil.copytree('/repo', d + '/repo', ignore=shutil.ignore_patterns('.git'))
    p = d + '/repo/' + f
    s = open(p).read()
    a = [x.encode().decode('unicode_escape') for x in sys.argv[3:]]
    for old, new in zip(a[::2], a[1::2]):
        assert s.count(old) >= 1, 'not found ' + old
        s = s.replace(old, new)
    open(p, 'w').write(s)
    for c in checks.split(','):
        r = subprocess.run(['/opt/venv/bin/python', '/verif/run_check.py', c],
                           env=dict(os.environ, RF_REPO=d + '/repo', RF_EVIDENCE=d + '/ev'),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(c, 'exit', r.returncode, '|', '\n'.join(x[:250] for x in r.stdout.splitlines()[-5:])[:900])
finally:
    shutil.rmtree(d)
