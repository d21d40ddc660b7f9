#!/opt/venv/bin/python
"""mutants.py CHECK[,CHECK] [N]: file with blocks on stdin, run checks on them

FILE
<<<<
old
====
new
>>>>
"""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
checks = sys.argv[1].split(',')
n = int(sys.argv[2]) if len(sys.argv) > 2 else 2
text = sys.stdin.read()
muts = re.findall(r'(\S+)\n<<<<\n(.*?)\n====\n(.*?)\n?>>>>', text, re.S)


def work(arg):
    i, (f, old, new) = arg
    d = tempfile.mkdtemp(prefix='mut')
    try:
        shutil.copytree('/repo', d + '/repo',
                        ignore=shutil.ignore_patterns('.git'))
        p = d + '/repo/' + f
        s = open(p).read()
        if old not in s:
            return '%d NOT FOUND %s' % (i, old[:60])
        open(p, 'w').write(s.replace(old, new, 1))
        out = []
        for c in checks:
            r = subprocess.run(
                ['/opt/venv/bin/python', '/verif/run_check.py', c],
                env=dict(os.environ, RF_REPO=d + '/repo',
                         RF_EVIDENCE=d + '/ev'),
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            lines = r.stdout.splitlines()
            out.append('%d %s exit %d %s | %s' % (
                i, c, r.returncode, new.strip().replace('\n', ' ')[:60],
                ' '.join([x for x in lines if 'TRUNC' in x or 'unsup' in x
                          or 'VIOL' in x or 'rror' in x][:3] + lines[-1:])
                [:400]))
        return '\n'.join(out)
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(n) as ex:
    for r in ex.map(work, enumerate(muts, 1)):
        print(r, flush=True)
