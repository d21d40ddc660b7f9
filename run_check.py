#!/opt/venv/bin/python
"""Decide one property:  run_check.py C01 [--tier quick|thorough]

Exit 0 if the property held on everything explored, exit 1 with a line
``VIOLATION property=<id> replay=<path>`` otherwise.  ``--replay file`` runs
one recorded input against the real code.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
sys.dont_write_bytecode = True
for _k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
    os.environ.setdefault(_k, '1')
_tmp = None
if 'MPLCONFIGDIR' not in os.environ:
    if os.path.isdir('/opt/rf-work/mpl') and os.access('/opt/rf-work/mpl',
                                                       os.W_OK):
        os.environ['MPLCONFIGDIR'] = '/opt/rf-work/mpl'
    else:
        import tempfile
        _tmp = tempfile.mkdtemp(prefix='mpl')
        os.environ['MPLCONFIGDIR'] = _tmp

REPO = os.environ.get('RF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.path.insert(1, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

import argparse                                         # noqa: E402
import importlib                                        # noqa: E402
import json                                             # noqa: E402
import subprocess                                       # noqa: E402
import time                                             # noqa: E402
import warnings                                         # noqa: E402

warnings.simplefilter('ignore')


def load(prop, tier):
    mod = importlib.import_module('checks.' + prop)
    return mod, mod.cases(tier)


def do_replay(prop, fname):
    with open(fname) as f:
        d = json.load(f)
    from symrf.runner import run_concrete
    mod, cases = load(prop, d['tier'])
    case = [c for c in cases if c.name == d['case']][0]
    r = run_concrete(case, d['values'], d['choices'])
    print(json.dumps({'status': r['status'], 'failed': r['failed'],
                      'values': r['values'], 'choices': r['choices']},
                     default=str, indent=1))
    if r.get('trace'):
        print(r['trace'])
    return 1 if r['failed'] else 0


def main():
    p = argparse.ArgumentParser()
    p.add_argument('property')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    p.add_argument('--replay')
    p.add_argument('--case')
    p.add_argument('--verbose', '-v', action='store_true')
    p.add_argument('--all', action='store_true',
                   help='go on after first violation')
    p.add_argument('--jobs', type=int, default=8)
    a = p.parse_args()
    prop = a.property
    import rf
    assert os.path.dirname(os.path.abspath(rf.__file__)) == \
        os.path.join(REPO, 'rf'), 'rf is not imported from ' + REPO
    if a.replay:
        return do_replay(prop, a.replay)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    from symrf import runner
    mod, cases = load(prop, tier)
    if a.case:
        cases = [c for c in cases if a.case in c.name]
    evdir = os.environ.get('RF_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    violations = []
    unconfirmed = []

    def confirm(r):
        for v in r['violations'][:2]:
            fname = os.path.join(evdir, 'replay-%s-%d.json' % (
                prop, len(violations) + len(unconfirmed)))
            v['tier'] = tier
            v['property'] = prop
            with open(fname, 'w') as f:
                json.dump(v, f, indent=1, default=str)
            try:
                pr = subprocess.run(
                    [sys.executable, os.path.abspath(__file__), prop,
                     '--replay', fname], stdout=subprocess.PIPE,
                    stderr=subprocess.STDOUT, timeout=120, cwd=HERE)
                ok = pr.returncode == 1
            except subprocess.TimeoutExpired:
                ok = False
            (violations if ok else unconfirmed).append((fname, v))
        return bool(violations) and not a.all

    results = runner.run_cases(cases, seed, jobs=a.jobs, verbose=a.verbose,
                               confirm=confirm)
    errors = [(r['name'], r['error']) for r in results if 'error' in r]
    good = [r for r in results if 'error' not in r]
    known = sorted({k for r in good for k in r['known']})
    # evidence
    tot = {}
    for r in good:
        for k, x in r.get('stats', {}).items():
            tot[k] = tot.get(k, 0) + x
    inconclusive = sum(len(r['inconclusive']) + len(r['spurious']) +
                       sum(r['unsupported'].values()) for r in good)
    truncated = [r['name'] for r in good if r.get('truncated')]
    per_case = {}
    for r in good:
        per_case[r['name']] = {
            'bounds': r['bounds'], 'paths': r['paths'],
            'infeasible_paths': r['aborted'],
            'statements': r['checks'], 'discharged': r['discharged'],
            'decided_by_solver_query': r['solver_checks'],
            'paths_with_witness': r['witness'],
            'complete': bool(not r.get('truncated') and
                             not r['inconclusive'] and not r['spurious'] and
                             not r['unsupported'] and r['paths'] > 0),
            'inconclusive': r['inconclusive'][:5],
            'not_reproduced': r['spurious'][:5],
            'unsupported': r['unsupported'],
            'random_runs_not_confirmed': r['unconfirmed'][:5],
            'exceptions': r['exceptions'], 'stubs': r['stubs'],
            'notes': r.get('notes', {}),
            'validated': r['validated'], 'random_runs': r['random_runs'],
            'wall_s': round(r['wall_s'], 1)}
    samples = [s for r in good for s in r['samples'][:2]][:8]
    ev = {'property': prop, 'tier': tier, 'seed': seed,
          'level': 'model_checking',
          'coverage': {
              'states': sum(r['paths'] for r in good),
              'transitions': tot.get('branches', 0),
              'traces_validated_against_impl':
                  sum(r['validated'] for r in good),
              'samples': samples or [{'note': 'no sample'}],
              'explanation': 'states: execution paths of the real code '
              'explored symbolically to the end; transitions: branch '
              'decisions on symbolic values; traces validated: models of '
              'paths run with the unpatched code',
              'functions_encoded':
                  sorted({f for r in good for f in r['functions']}),
              'queries': tot.get('queries', 0),
              'unknown_answers': tot.get('unknown', 0),
              'solver_s': round(tot.get('solver_s', 0), 2),
              'statements': sum(r['checks'] for r in good),
              'statements_discharged': sum(r['discharged'] for r in good),
              'inconclusive': inconclusive,
              'truncated_cases': truncated,
              'additional_random_runs':
                  sum(r['random_runs'] for r in good),
              'exhaustive': False,
              'cases': per_case,
              'errors': [e[0] for e in errors]},
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
          'wall_s': round(time.time() - t0, 2),
          'violations': len(violations)}
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for r in good:
        print('%-38s paths %5d  statements %6d  discharged %6d  '
              'inconclusive %d  %s%.1fs' % (
                  r['name'], r['paths'], r['checks'], r['discharged'],
                  len(r['inconclusive']) + len(r['spurious']) +
                  sum(r['unsupported'].values()),
                  'TRUNCATED  ' if r.get('truncated') else '', r['wall_s']))
        for what in ('unsupported', 'exceptions'):
            for k, n in r[what].items():
                print('    %s %d x %s' % (what, n, k))
        for what in ('inconclusive', 'spurious'):
            for k in r[what][:3]:
                print('    %s: %s' % (what, k))
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    for n, e in errors:
        print('ERROR in case %s: %s' % (n, e))
    for fname, v in unconfirmed:
        print('not confirmed in fresh process: %s %s' % (v['case'],
                                                         v['failed'][:1]))
    print('%s %s: %d cases, %d paths, %d statements, %d queries, %.1f s' % (
        prop, tier, len(results), ev['coverage']['states'],
        ev['coverage']['statements'], ev['coverage']['queries'],
        ev['wall_s']))
    for fname, v in violations:
        print('  %s (%s): %s  values=%s choices=%s' % (
            v['case'], v['origin'], v['failed'][:2], v['values'],
            v['choices']))
    for fname, v in violations[:1]:
        print('VIOLATION property=%s replay=%s' % (prop, fname))
    if _tmp:
        import shutil
        shutil.rmtree(_tmp, ignore_errors=True)
    if violations:
        return 1
    vacuous = [r['name'] for r in good if r['witness'] == 0 and
               r['validated'] + r['random_runs'] == 0]
    if errors or vacuous:
        print('check incomplete: errors %s, nothing reached %s' % (
            [e[0] for e in errors], vacuous))
        return 2
    return 0


if __name__ == '__main__':
    sys.stdout.flush()
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
