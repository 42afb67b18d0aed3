#!/usr/bin/env python3
# writes MANIFEST.json from the table below
import json,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E1="Generated-input search over the real engine with stand-in ports and a reference model; counterexamples shrink to a replayable scenario. Finds violations within the generated sizes (up to ~20 operations, trees to depth 4); no proof."
PB="property-based testing: generated command programs against a reference model (rapid)"
CH=[]
def c(pid,tech,level,note): CH.append((pid,tech,level,note))
for pid in "C01 C02 C03 C04 C05 C06 C10 C11 C12 C13 C16".split(): c(pid,PB,"exploration",E1)
c("C07","property-based testing with enumeration of every fault point of each generated command","fault_enumeration","For every generated command, every fallible call of its run is failed once with an error and once with a panic; programs themselves are sampled.")
c("C08",PB+"; overlapping commands in fake time (synctest)","exploration",E1+" Deadlocks are detected exactly for the schedules played.")
c("C09",PB+"; overlapping commands in fake time (synctest)","exploration",E1)
exec(open(os.path.join(root,'tools','manifest_more.py')).read()) if os.path.exists(os.path.join(root,'tools','manifest_more.py')) else None
ids=[json.loads(l)['id'] for l in open(os.path.join(root,'properties.jsonl'))]
CH.sort()
have=[x[0] for x in CH]
m={"version":1,"setup_cmd":"bash setup.sh","checks":[{"property":p,"quick_cmd":f"./check.sh {p}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {p}","technique":t,"level":l,"level_note":n} for p,t,l,n in CH],
"not_applicable":[{"property":i,"reason":NA.get(i,"not built yet") if 'NA' in globals() else "not built yet"} for i in ids if i not in have]}
json.dump(m,open(os.path.join(root,'MANIFEST.json'),'w'),indent=1)
