#!/usr/bin/env python3
"""Refreshes the "fixed" list in known_findings.json from the fix: commits in /repo (run by hand, never by a check)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# key words of the commit subject -> property that exposed it
MAP = [('deposition exceeds', 'C01'), ('bedcomp_file', 'C28'), ('diagonals', 'C04'), ('opposite row', 'C04'), ('more than one sediment', 'C04'),
       ('upper circular', 'C05'), ('one-dimensional models in the implicit', 'C04'), ('when there is no wind', 'C16'), ('largest bed level', 'C16'),
       ('rotate the grid back', 'C33'), ('immutable', 'C18'), ('restart files', 'C23'), ('Python 3', 'C20'), ('whitespace', 'C19'), ('scientific', 'C19'),
       ('loss of precision', 'C20'), ('reference date', 'C19'), ('default configuration', 'C19'), ('default output', 'C21'), ('empty list', 'C20'),
       ('underscore', 'C17'), ('undisturbed saturated concentration every', 'C07'), ('Kawamura and Lettau', 'C07'), ('bagnold_gs transport', 'C07'),
       ('before any variable', 'C17'), ('print progress', 'C23'), ('initial guess of the weights', 'C06'), ('non-erodible layer or below a given', 'C08'),
       ('threshold file in', 'C08'), ('corners of constant', 'C05'), ('prescribe instead', 'C05'), ('boundary flux for the bagnold_gs', 'C07'),
       ('wave numbers', 'C10'), ('components of the undisturbed', 'C09'), ('separation bubbles', 'C10'), ('avalanche also', 'C11'),
       ('avalanche below', 'C11'), ('total and dynamic', 'C12'), ('Stockdon', 'C12'), ('Iribarren', 'C12'), ('documented discretisation', 'C14'),
       ('shoreline of the row', 'C14'), ('previous groundwater', 'C14'), ('number of substeps', 'C14'), ('entirely flooded', 'C14'),
       ('soil water', 'C13'), ('noflux', 'C04'), ('constant lateral', 'C04'), ('limit the entrainment', 'C03'), ('division by zero in the finite', 'C03'),
       ('after a skipped', 'C16'), ('grid size in s-direction', 'C33'), ('over the actual time step', 'C26'), ('vertical growth', 'C26'),
       ('regrow', 'C26'), ('whole numbers', 'C26'), ('alter the pickup', 'C02'), ('second quadrant', 'C33'),
       ('only start with None', 'C19'), ('rank and shape', 'C17'), ('before its statistics', 'C22'), ('the same in all cells', 'C21')]
MORE = os.path.join(ROOT, 'tools', 'fixed_more.json')
if os.path.exists(MORE):
    MAP += [tuple(x) for x in json.load(open(MORE))]
out = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True, check=True).stdout
fixed = []
for line in out.splitlines():
    h, s = line.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    prop = [p for k, p in MAP if k in s]
    assert prop, line
    fixed.append('fixed: property=%s %s %s' % (prop[0], h, s[5:]))
path = os.path.join(ROOT, 'known_findings.json')
d = json.load(open(path))
d['fixed'] = fixed
with open(path, 'w') as fp:
    json.dump(d, fp, indent=1)
    fp.write('\n')
print(len(fixed))
