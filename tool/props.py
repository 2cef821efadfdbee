#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing: python3 tool/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, CHECKS, NA = [], [], []


def P(pid, title, statement, over, text, why, files, mech, tech=None, note=None, na=None, state=None, observe=None):
    assert len(title) <= 80, (pid, len(title))
    a = {'files': files.split(), 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    PROPS.append({'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over.split(), 'text': text},
                  'why_tests_cant': why, 'anchors': a})
    if na:
        NA.append({'property': pid, 'reason': na})
    else:
        CHECKS.append({'property': pid, 'quick_cmd': 'python3 /verif/check.py ' + pid, 'thorough_cmd': 'python3 /verif/check.py %s --thorough' % pid,
                       'technique': tech, 'level': 'other', 'level_note': note})


exec(open(os.path.join(V, 'tool', 'props_data.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
json.dump({'version': 1, 'setup_cmd': 'python3 /verif/check.py --setup', 'checks': CHECKS, 'not_applicable': NA,
           'notes': 'Static analysis only: a libTooling extractor emits the type-checked program of /repo on every run; per-property rules are decided on value/effect summaries. See DESIGN.md.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(PROPS), 'properties', len(CHECKS), 'claimed', len(NA), 'not applicable')
