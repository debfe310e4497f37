#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = [{'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
           'technique': 'TLA+ specification: TLC model checking of the design and TLC validation of traces recorded from the library',
           'level': 'model_checking',
           'level_note': props.PROPS[i].note} for i in ids if i in props.PROPS]
na = [{'property': i, 'reason': props.NA.get(i, 'check not built yet')} for i in ids if i not in props.PROPS]
json.dump({'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: the specification is bound to the library through its public interface only.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
