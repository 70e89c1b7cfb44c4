#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (the texts live there)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools')); sys.path.insert(0, os.path.join(V, 'harness'))
import props, registry
with open(os.path.join(V, 'properties.jsonl'), 'w') as o:
    for p in props.P: o.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
checks, na = [], []
for p in props.P:
    if p['id'] in registry.PROPS:
        checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
            'technique': 'symbolic execution of the real code (LLVM IR) with SMT (z3), bounded; counterexamples replayed natively', 'level': registry.PROPS[p['id']]['level'], 'level_note': p['level_note']})
    else: na.append({'property': p['id'], 'reason': p['na']})
json.dump({'version': 1, 'setup_cmd': 'bash symx/build.sh', 'checks': checks, 'not_applicable': na, 'notes': props.NOTES}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
assert set(registry.PROPS) <= {p['id'] for p in props.P}
