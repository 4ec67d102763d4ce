#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json
CLAIMS={
'B01':'every function of pkg/bits under a full functional contract, all inputs',
'B02':'both decoders under a full functional contract against the standard code-word definition, all inputs',
}
exec(open('/verif/tools/claims.py').read())
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
checks=[];na=[]
for p in props:
    i=p['id']
    if i in CLAIMS:
        n=CLAIMS[i]
        checks.append({'property':i,'quick_cmd':f'./check.sh {i} quick','thorough_cmd':f'./check.sh {i} thorough',
          'technique':'contract-based deductive verification of the Go source (gover: go/ssa to SMT, z3/cvc5)',
          'level':'proof','level_note':n+'. Trusts gover, go/ssa and the solvers; see assumptions in the evidence and DESIGN.md.'})
    else:
        na.append({'property':i,'reason':NA.get(i,'not brought under contract yet')})
json.dump({'version':1,'setup_cmd':'./setup.sh','checks':checks,'not_applicable':na,
 'notes':'No hooks in /repo: contracts live in /verif/proofs and are overlaid on the packages they specify.'},open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),'claimed',len(na),'not')
