#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and checks/table.json from the entries below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, C, NA = [], [], []


def prop(id, title, statement, over, text, why, files, mech, module=None, technique=None, note=None, na=None, state=None):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'hook_needed': None}})
    assert len(title) <= 80, title
    if na:
        NA.append({'property': id, 'reason': na})
    elif module:
        C.append((id, module, technique, note))


exec(open(os.path.join(HERE, 'tools', 'entries.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 engine/facts.py serial',
     'checks': [{'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
                 'technique': t, 'level': 'other', 'level_note': n} for i, mo, t, n in C],
     'not_applicable': NA,
     'notes': 'All checks share one libTooling extractor (extract/gx.cpp, built by setup_cmd into build/) that parses /repo/src afresh whenever its content hash changes.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
json.dump({i: mo for i, mo, t, n in C}, open(os.path.join(HERE, 'checks', 'table.json'), 'w'), indent=1)
print(len(P), 'properties', len(C), 'checks', len(NA), 'not applicable')
