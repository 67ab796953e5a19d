import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
notes={
'C01':'CLI/driver batch encode and decode run under the simulated scheduler with many worker counts; results compared with one-at-a-time calls and an independent reference tokenizer',
}
NA={'C17','C18','C19','C20','C21'}
checks=[]
import os
have=set(p[:-3].upper() for p in os.listdir('/verif/dst/src/props') if p.startswith('c'))
for p in props:
    i=p['id']
    if i in NA or i not in have: continue
    checks.append({"property":i,"quick_cmd":f"bash run.sh {i}","thorough_cmd":f"bash run.sh {i} thorough",
      "technique":"deterministic simulation with fault injection: seeded search over schedules, clocks, random streams and faults, with the real binary in an LD_PRELOAD simulator and a reference model as oracle",
      "level":"exploration",
      "level_note":"Seeded exploration, not exhaustive. Real CLI/library/Python-module code runs; threads, clocks, entropy, file I/O and crashes go through the simulator. Sequentially consistent memory; the reference model is trusted. See DESIGN.md "+i+"."})
m={"version":1,"setup_cmd":"bash run.sh build","checks":checks,
"not_applicable":[{"property":i,"reason":"pure function of its arguments: no schedule, clock, I/O, randomness, fault or history takes part, so the simulator has nothing to decide"} for i in sorted(NA)]}
miss=[p['id'] for p in props if p['id'] not in NA and p['id'] not in have]
m['not_applicable']+=[{"property":i,"reason":"check not built yet"} for i in miss]
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
