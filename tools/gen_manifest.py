#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the harnesses present."""
import json,re,glob,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
have={}
for f in glob.glob(V+'/harness/*/*.go'):
    for m in re.finditer(r'^//verif:(.*)$',open(f).read(),re.M):
        for o in m.group(1).split():
            if re.fullmatch(r'C\d\d',o): have.setdefault(o,[]).append(os.path.basename(os.path.dirname(f)))
exec(open(V+'/tools/na.py').read())
checks=[];na=[]
for p in props:
    i=p['id']
    if i in have:
        checks.append({'property':i,'quick_cmd':'./check %s quick'%i,'thorough_cmd':'./check %s thorough'%i,
          'evidence_file':'evidence/%s.json'%i,
          'technique':TECH.get(i,'symbolic execution of go/ssa of the real code, assertions discharged by z3'),
          'level':'model_checking',
          'level_note':NOTE.get(i,'Bounded: the solver decides the assertions for every input within the bounds written in the harness docs; trusts the SSA interpreter and its stubs (listed in the evidence), cross-checked each run by replaying solver models on the compiled code. Nothing is claimed beyond the bounds.')})
    else:
        na.append({'property':i,'reason':NA.get(i,'no harness yet')})
m={'version':1,'setup_cmd':'./setup.sh','checks':checks,'not_applicable':na}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'not applicable',[x['property'] for x in na])
