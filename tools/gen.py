#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts in tools/texts.py (run after editing them)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(ROOT, 'engine'))
import texts    # noqa: E402
import props    # noqa: E402

out = []
checks = []
na = []
for p in texts.PROPERTIES:
    d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
         'quantifier': {'over': p['over'], 'text': p['q']}, 'why_tests_cant': p['why'],
         'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}
    assert len(p['title']) <= 80, p['title']
    out.append(d)
    if p.get('na'):
        na.append({'property': p['id'], 'reason': p['na']})
    elif p['id'] in props.PROPS:
        checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'],
                       'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                       'technique': p.get('technique', texts.TECHNIQUE), 'level': 'other',
                       'level_note': texts.LEVEL_NOTE + p.get('note', '')})
    else:
        out.pop()
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for d in out:
        f.write(json.dumps(d) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q engine check.py', 'checks': checks, 'not_applicable': na, 'notes': texts.NOTES}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(out), 'properties', len(checks), 'checks', len(na), 'not applicable')
