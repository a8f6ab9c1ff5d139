#!/usr/bin/env python3
"""MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {
    'version': 1,
    'setup_cmd': 'python3 check.py --setup',
    'checks': [{
        'property': i,
        'quick_cmd': 'python3 check.py ' + i,
        'thorough_cmd': 'python3 check.py ' + i,
        'technique': PROPS[i]['technique'], 'level': PROPS[i]['level'], 'level_note': PROPS[i]['note'],
    } for i in ids if i in PROPS],
    'not_applicable': [{'property': i, 'reason': 'its check is not built yet'} for i in ids if i not in PROPS],
    'notes': 'check.py takes tier and seed from VERIF_TIER and VERIF_SEED. No hooks in the repository are needed.',
}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
