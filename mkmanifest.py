#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l) for l in open('properties.jsonl')]
checks, na = [], []
for p in ids:
    i = p['id']
    if i in PROPS:
        q = PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3 run.py %s --tier quick' % i, thorough_cmd='python3 run.py %s --tier thorough' % i,
                           technique=q.get('technique', 'runtime monitoring'), level='exploration',
                           level_note=q.get('note', '') or 'Holds on the executions generated (counts in the evidence file); trusts the independent oracle.'))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'no check built yet')))
json.dump(dict(version=1, setup_cmd='python3 -c "import props"', checks=checks, not_applicable=na,
               notes='Checks build their harnesses from /repo\'s working tree in a scratch directory and remove it. No hooks are needed in /repo.'),
          open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
