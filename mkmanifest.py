"""writes MANIFEST.json from gvc/props.py"""
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gvc.props import PROPS
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks, na = [], []
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                           technique=c.get('technique', 'contract-based deductive verification (function contracts, SMT-discharged) of the SSA of the current source'),
                           level=c['level'], level_note=c.get('note', '')))
    else:
        na.append(dict(property=i, reason='no contract within reach has been completed for this property yet'))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
         notes='No hooks in /repo: contracts live in /verif/gvc/contracts and are proved over the SSA exported mechanically from /repo on every run.')
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
