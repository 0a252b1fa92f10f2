#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from registry import CHECKS, NOTE, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
                           technique=c['technique'], level='exploration', level_note=NOTE + c.get('note', '')))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'its check is still being built')))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the harness is compiled into the module with go test -overlay. '
               'Commits in /repo are repairs only (see KNOWN_FINDINGS).')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
