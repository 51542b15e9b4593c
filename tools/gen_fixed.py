#!/usr/bin/env python3
"""Rewrites the "fixed" list of known_findings.json from the fix commits of /repo. PROPS: property by word of the subject."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORDER = ('C06 C17 C05 C05 C05 C01 C25 C15 C02 C06 C06 C06 C08 C07 C07 C10 C10 C07 C07 C09 C08 C09 C09 C23 C05 C05 C06 C06 '
         'C06 C08 C08 C13 C13 C15 C15 C16 C16 C16 C16 C16 C11 C11 C11 C11 C17 '
         'C18 C18 C18 C18 C18 C19 C19 C19 C19 C19 C19 C19 C19 C19 C20 '
         'C24 C24 C24 C24 C24 C24 C24 C24 C24 C24 C24 C24 C21 C21 C21 C22 C22 C22 C22 C22 C22 C22 C22 C22 C22 C18 '
         'C23 C23 C23 C23 C23 C23 C18 C23 C23 C26 C26 C26 C26 C26 C26 C26 C26 C27 C27 C27 C27 C27 C27 C27 C27 C19 C19 C16 C16 C16 C16 C24 C24 C06 C08').split()
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '138750f..HEAD'], capture_output=True, text=True).stdout.splitlines()
log = [l for l in log if ' fix: ' in l]
assert len(log) >= len(ORDER), (len(log), len(ORDER))
ORDER += ['??'] * (len(log) - len(ORDER))
f = os.path.join(HERE, 'known_findings.json')
d = json.load(open(f))
d['fixed'] = [f'fixed: property={p} {l.split()[0]} {l.split(" fix: ", 1)[1]}' for p, l in zip(ORDER, log)]
json.dump(d, open(f, 'w'), indent=1)
print('\n'.join(d['fixed']))
