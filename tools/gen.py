#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from props.py (development tool, no check uses it)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(root + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        o = {k: p[k] for k in ('id', 'title', 'statement')}
        o['quantifier'] = {'over': p['over'], 'text': p['text']}
        o['why_tests_cant'] = p['why']
        o['anchors'] = {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'observe_at': p.get('observe', []), 'hook_needed': p.get('hook')}
        f.write(json.dumps(o, ensure_ascii=False) + '\n')
checks = [{'property': p['id'], 'quick_cmd': f"./check.sh {p['id']}", 'thorough_cmd': f"env VERIF_TIER=thorough ./check.sh {p['id']}", 'evidence_file': f"evidence/{p['id']}.json",
           'technique': p['tech'], 'level': 'exploration', 'level_note': p['note']} for p in PROPS if p.get('tech')]
m = {'version': 1, 'setup_cmd': './setup.sh', 'hooks': {'guard': 'none', 'enable': 'no hooks: every monitor observes through public API, recording widgets or the terminal byte stream', 'source_commits': []},
     'checks': checks, 'not_applicable': NOT_APPLICABLE, 'notes': 'One harness binary; ./check.sh <ID> rebuilds it from /repo and runs one property. VERIF_SEED selects the workload; VERIF_TIER=thorough multiplies it.'}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open(root + '/MANIFEST.json', 'a').write('\n')
