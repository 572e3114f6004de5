#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED lists the properties with a check."""
import json
CLAIMED=json.load(open('/verif/tools/claimed.json'))
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
TECH="contract-based deductive verification of the Go source (gv: go/ssa symbolic execution against per-function contracts, obligations discharged by z3/cvc5)"
checks=[];na=[]
for p in props:
    i=p['id']
    if i in CLAIMED['checks']:
        checks.append({'property':i,'quick_cmd':f'/verif/check.sh {i} quick','thorough_cmd':f'/verif/check.sh {i} thorough','technique':TECH,'level':CLAIMED['checks'][i].get('level','proof'),'level_note':CLAIMED['checks'][i]['note']})
    else:
        na.append({'property':i,'reason':CLAIMED['na'].get(i,'machinery for this property is not built yet')})
json.dump({'version':1,'setup_cmd':'bash /verif/setup.sh','checks':checks,'not_applicable':na},open('/verif/MANIFEST.json','w'),indent=1)
open('/verif/MANIFEST.json','a').write('\n')
