#!/usr/bin/env python3
# Writes MANIFEST.json from the rules the analyser implements.
import json,subprocess,os
os.chdir(os.path.dirname(os.path.abspath(__file__))+'/..')
props=[json.loads(l) for l in open('properties.jsonl')]
rules=dict(l.split() for l in subprocess.check_output(['bin/goslidecheck','-list'],text=True).splitlines())
NOTE={
 'proof':'All obligations are facts about the value graph of the current source, for all inputs in the stated domain; relies on go/ssa, on the analyser itself and on its library models. Integers are mathematical (no overflow of int), floats are reals.',
 'other':'Decides the structural clauses named in DESIGN.md for this property (necessary conditions on every path of the current source), not the complete behaviour.',
}
TECH={}
exec(open('tools/technique.py').read())
NA={
 'C90':'Statement about convergence of a stochastic optimisation over runtime data; no structural clause whose breach would necessarily break it beyond C19-C31, which are claimed separately.',
 'C91':'Statement about probabilities over random constructions; source structure does not bound them (the structural parts are claimed as C14, C16, C17).',
 'C92':'Cost statement that depends on how many nodes the hash tables return at run time; not bounded by any static argument in reach (mode 4 allocates per node by design).',
 'C93':'Needs numeric bounds on weights after arbitrarily many updates; floating-point ranges over unbounded histories are outside static reach (overflow of the softmax itself is claimed in C25).',
}
checks=[];na=[]
for p in props:
    i=p['id']
    if i in rules:
        checks.append({'property':i,'quick_cmd':'./check.sh '+i,'thorough_cmd':'./check.sh '+i,'evidence_file':f'evidence/{i}.json',
          'technique':TECH.get(i,'value-graph dataflow analysis over go/ssa'),'level':rules[i],'level_note':NOTE[rules[i]]})
    else:
        na.append({'property':i,'reason':NA.get(i,'not claimed: its check is still under construction')})
json.dump({'version':1,'setup_cmd':'./check.sh','checks':checks,'not_applicable':na},open('MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'n/a')
