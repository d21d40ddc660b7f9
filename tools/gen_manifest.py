#!/usr/bin/env python3
"""Write MANIFEST.json from the checks which exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'symbolic execution of the real Python code, decided with z3'
NOTE = {}
NA = {
 'C27': 'Accuracy of travel times and geodesics is decided inside the '
        'compiled/tabulated libraries TauPy and geographiclib (iterative '
        'numerical solutions with lookup tables); nothing of it is in '
        'trichter/rf and no symbolic encoding is within reach.',
 'C28': 'Bytes on disk are produced and parsed by obspy format plugins and '
        'the HDF5 C library; these cannot be executed symbolically. The '
        'part in trichter/rf (header mapping) is decided by C13 and C14.'}
exec(open(os.path.join(HERE, 'tools', 'notes.py')).read())

props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif os.path.exists(os.path.join(HERE, 'checks', i + '.py')):
        cmd = '/opt/venv/bin/python run_check.py %s --tier ' % i
        checks.append({'property': i, 'quick_cmd': cmd + 'quick',
                       'thorough_cmd': cmd + 'thorough', 'technique': TECH,
                       'level': 'model_checking',
                       'level_note': NOTE.get(i, '') + COMMON})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
d = {'version': 1, 'setup_cmd': 'true', 'checks': checks,
     'not_applicable': na,
     'notes': 'No hooks in /repo. The encoding is made at run time by '
              'executing the current source of /repo on symbolic values.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(d, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
