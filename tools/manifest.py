#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist (run it after adding one)."""
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

checks, missing = [], []
for line in open(os.path.join(VERIF, 'properties.jsonl')):
    pid = json.loads(line)['id']
    if not os.path.exists(os.path.join(VERIF, 'checks', pid.lower() + '.py')):
        missing.append({'property': pid, 'reason': 'its monitor is not built yet'})
        continue
    mod = importlib.import_module('checks.' + pid.lower())
    cmd = 'python3 check.py ' + pid
    checks.append({'property': pid, 'quick_cmd': cmd, 'thorough_cmd': cmd + ' --thorough',
                   'evidence_file': 'evidence/%s.json' % pid,
                   'technique': mod.TECHNIQUE, 'level': getattr(mod, 'LEVEL', 'exploration'),
                   'level_note': mod.LEVEL_NOTE})
manifest = {'version': 1, 'setup_cmd': 'python3 -m vlib.build', 'checks': checks, 'not_applicable': missing,
            'notes': 'Every check builds the current tree itself (with overflow checks and debug assertions) and runs '
                     'the real executable; nothing in /repo is hooked.'}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
print('%d checks, %d missing' % (len(checks), len(missing)))
