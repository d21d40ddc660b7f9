#!/opt/venv/bin/python
"""allseeds.py [N] [IDS]: run the check of every seeded bug, extra environment
is passed on (e.g. RF_NORANDOM=1)"""
import glob, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
n = int(sys.argv[1]) if len(sys.argv) > 1 else 2
ids = sys.argv[2:] or sorted(os.path.basename(d) for d in glob.glob('/verif/seeded/*'))


def work(i):
    d = tempfile.mkdtemp(prefix='alls')
    try:
        shutil.copytree('/repo', d + '/repo',
                        ignore=shutil.ignore_patterns('.git'))
        subprocess.check_call(['patch', '-s', '-p1', '-i', '/verif/seeded/%s/patch.diff' % i], cwd=d + '/repo')
        c = json.load(open('/verif/seeded/%s/meta.json' % i))['property']
        r = subprocess.run(['/opt/venv/bin/python', '/verif/run_check.py', c],
                           env=dict(os.environ, RF_REPO=d + '/repo', RF_EVIDENCE=d + '/ev'),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l for l in r.stdout.splitlines() if 'unsup' in l or 'origin' in l or '(' in l and not l.startswith(' ' * 30)]
        return '%s %s exit %d | %s' % (i, c, r.returncode, ' '.join(v)[-300:])
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(n) as ex:
    for r in ex.map(work, ids):
        print(r, flush=True)
