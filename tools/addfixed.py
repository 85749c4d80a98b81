"""Record repaired defects: tools/addfixed.py PROP COMMIT TEXT [COMMIT TEXT ...]"""
import json
import os
import subprocess
import sys
P = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(P))
prop, rest = sys.argv[1], sys.argv[2:]
for c, t in zip(rest[::2], rest[1::2]):
    c = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', '--short', c], text=True).strip()
    line = f'fixed: property={prop} {c} {t}'
    if line not in d['fixed']:
        d['fixed'].append(line)
json.dump(d, open(P, 'w'), indent=1)
open(P, 'a').write('\n')
