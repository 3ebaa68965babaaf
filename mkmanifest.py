#!/usr/bin/env python3
"""Rewrites MANIFEST.json from properties.jsonl and the rule modules (run by hand after adding a rule)."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(HERE, 'sa')]
NA = json.load(open(os.path.join(HERE, 'not_applicable.json')))
checks = []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)
    pid = p['id']
    if any(n['property'] == pid for n in NA):
        continue
    m = importlib.import_module('rules.' + pid.lower())
    checks.append({'property': pid, 'quick_cmd': 'python3 check.py %s' % pid,
                   'thorough_cmd': 'python3 check.py %s thorough' % pid,
                   'technique': m.TECHNIQUE, 'level': m.LEVEL, 'level_note': m.NOTE})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': NA,
           'notes': 'Static analysis over the MIR of the current tree; see DESIGN.md.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(NA), 'not applicable')
