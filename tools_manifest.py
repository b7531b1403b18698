#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the table below."""
import json,os,sys
H=os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0,H)
T=json.load(open(os.path.join(H,'techniques.json')))
m={'version':1,'setup_cmd':'bash /verif/setup.sh','checks':[],'not_applicable':[]}
for l in open(os.path.join(H,'properties.jsonl')):
    p=json.loads(l); i=p['id']
    t=T.get(i)
    if t is None:
        m['not_applicable'].append({'property':i,'reason':'check not built yet'}); continue
    if 'na' in t:
        m['not_applicable'].append({'property':i,'reason':t['na']}); continue
    m['checks'].append({'property':i,'quick_cmd':f'VERIF_TIER=quick /verif/check.sh {i}','thorough_cmd':f'VERIF_TIER=thorough /verif/check.sh {i}','technique':t['technique'],'level':'exploration','level_note':t['note']})
m['hooks']={'guard':'cargo feature verif-hooks of halo2_proofs (off by default)','enable':'path dependency with features = ["verif-hooks"] in /verif/harness/{lab,proofs,gadgets}/Cargo.toml','source_commits':['50e2f95','b9e8f1d']}
json.dump(m,open(os.path.join(H,'MANIFEST.json'),'w'),indent=1); open(os.path.join(H,'MANIFEST.json'),'a').write('\n')
