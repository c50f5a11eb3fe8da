#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from tools/props.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
     'checks': [{'property': i, 'quick_cmd': 'VERIF_TIER=quick python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i, 'level': PROPS[i]['level'],
                 'technique': PROPS[i].get('technique', 'contracts on the real code, extracted on every run, discharged function by function by Verus (Z3)'),
                 'level_note': PROPS[i].get('note', '')} for i in ids if i in PROPS],
     'not_applicable': [{'property': i, 'reason': NOT_APPLICABLE.get(i, 'no contract-based check has been built for it yet')} for i in ids if i not in PROPS],
     'notes': 'No hooks are needed in /repo: the verified text is extracted mechanically from /repo/src on every run (see DESIGN.md).'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
