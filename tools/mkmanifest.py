#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules that exist."""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
PURE = ('A pure function of its argument: no schedule, clock, I/O, randomness, crash or fault takes part, so simulation would only '
        'be random input testing under another name.')
checks, na = [], []
for p in props:
    f = os.path.join(V, 'props', p['id'].lower() + '.py')
    if os.path.exists(f):
        src = open(f).read()
        level = re.search(r"^LEVEL = '(\w+)'", src, re.M).group(1)
        tech = re.search(r'^TECHNIQUE = \(?((?:\s*[\'"].*[\'"]\n?)+)\)?', src, re.M)
        note = re.search(r'^NOTE = \(?((?:\s*[\'"].*[\'"]\n?)+)\)?', src, re.M)
        tech = eval('(' + tech.group(1) + ')') if tech else 'deterministic simulation with fault injection: seeded search over histories, schedules and faults against a reference model'
        note = eval('(' + note.group(1) + ')') if note else 'Seeded search, not exhaustive: assurance over the histories and faults explored; see assumptions in the evidence file.'
        checks.append({'property': p['id'], 'quick_cmd': f'./check {p["id"]}', 'thorough_cmd': f'VERIF_TIER=thorough ./check {p["id"]}',
                       'technique': tech, 'level': level, 'level_note': note})
    else:
        na.append({'property': p['id'], 'reason': PURE if p['id'] in ('C19', 'C21', 'C22', 'C23', 'C24') else 'Check not built yet.'})
doc = {'version': 1, 'setup_cmd': './setup.sh',
       'hooks': {'guard': 'NIMBLE_SIM', 'enable': 'not needed: the seams are outside the library (C library interposition, transport adapter, forked sessions), so /repo carries no hooks and no commit adds any', 'source_commits': []},
       'checks': checks, 'not_applicable': na}
json.dump(doc, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'na')
