#!/usr/bin/env python3
"""Print the table of planted bugs for DESIGN.md"""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LATER = json.load(open(os.path.join(HERE, 'tools', 'later.json')))
rows = []
for d in sorted(glob.glob(HERE + '/seeded/*')):
    i = os.path.basename(d)
    m = json.load(open(d + '/meta.json'))
    r = LATER.get(i, '')
    rows.append('| %s | %s | %s | %s%s |' % (
        i, m['property'], 'missed' if r.startswith('missed') else m['property'],
        m['what_it_breaks'], ' — ' + r if r else ''))
t = '\n'.join(rows)
f = os.path.join(HERE, 'DESIGN.md')
s = open(f).read()
a, rest = s.split('|---|---|---|---|\n', 1)
b = rest[rest.index('\n\nFurther mutants'):]
open(f, 'w').write(a + '|---|---|---|---|\n' + t + b)
