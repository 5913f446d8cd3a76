#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'bin'))
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 bin/setup.py',
     'checks': [dict(property=i, quick_cmd='VERIF_TIER=quick python3 bin/check.py ' + i,
                     thorough_cmd='VERIF_TIER=thorough python3 bin/check.py ' + i,
                     evidence_file='evidence/%s.json' % i, technique=CHECKS[i]['technique'], level=CHECKS[i]['level'],
                     level_note=CHECKS[i]['note']) for i in props if i in CHECKS],
     'not_applicable': [dict(property=i, reason=NOT_APPLICABLE.get(i, 'its check is not built yet')) for i in props if i not in CHECKS],
     'notes': 'No hooks in /repo. Every check rebuilds its harness from /repo/src; see DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
