"""Write MANIFEST.json from properties.jsonl and the registered checks."""
import json, sys
sys.path.insert(0, '.')
from d7av.checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open('properties.jsonl')]
checks, na = [], []
for p in props:
  i = p['id']
  if i in CHECKS:
    m = CHECKS[i]
    checks.append(dict(property=i, quick_cmd='python3 -m d7av %s' % i, thorough_cmd='python3 -m d7av --thorough %s' % i,
                       technique=m['technique'], level='other', level_note=m['note']))
  else: na.append(dict(property=i, reason=NOT_APPLICABLE[i] if i in NOT_APPLICABLE else 'no check is built for it yet'))
json.dump(dict(version=1, setup_cmd='python3 -m compileall -q d7av', checks=checks, not_applicable=na), open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
