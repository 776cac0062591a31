#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os, subprocess
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
props=[json.loads(l) for l in open('properties.jsonl')]
PBT='property-based testing: '
CLAIMED={
 'C01':(PBT+'generated documents, mutated documents and random bytes; oracle: output equals input, accessors change nothing',
        'Searched, not proved: 160k generated inputs per quick run, millions in the thorough tier. Trusts the harness\' own input generator for coverage only; the oracle is byte equality.'),
 'C02':(PBT+'byte-level fuzzing with structured, mutated and deeply nested inputs in worker processes under a CPU and memory watchdog; oracle: result in time, no panic, error range inside the input, same answer twice, every accessor callable',
        'Searched, not proved. A hang counts only when confirmed by CPU time in a fresh process.'),
 'C04':(PBT+'documents rendered from generated trees in random layout; oracle: the generating tree, and libyaml as an independent reader',
        'Searched within the generated YAML subset; the generating tree and libyaml have to agree. One recorded finding (the escape for a backslash).'),
 'C05':(PBT+'metamorphic: the same generated tree rendered in two random layouts; oracle: both are read as the same data',
        'Searched within the generated layouts.'),
}
try:
    exec(open('tools/claimed.py').read())
except FileNotFoundError: pass
m={'version':1,'setup_cmd':'bash ./setup.sh','checks':[],'not_applicable':[],
   'notes':'No hooks: the harness uses only the public interface of the crate. One binary (harness/) holds every check; check.sh rebuilds it from /repo and runs one.'}
for p in props:
    i=p['id']
    if i in CLAIMED:
        t,n=CLAIMED[i]
        m['checks'].append({'property':i,'quick_cmd':f'./check.sh {i} quick','thorough_cmd':f'./check.sh {i} thorough','evidence_file':f'evidence/{i}.json','technique':t,'level':'fault_enumeration' if i=='C20' else 'exploration','level_note':n})
    else:
        m['not_applicable'].append({'property':i,'reason':'The check for it is not built yet.'})
json.dump(m,open('MANIFEST.json','w'),indent=1); open('MANIFEST.json','a').write('\n')
