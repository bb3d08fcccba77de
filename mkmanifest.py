import sys; import os; H=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,H)
import json
from parts import PROPS
props=[json.loads(l) for l in open(H+'/properties.jsonl')]
na={"C24":"unforgeability is a computational statement about all bounded adversaries; enumerating executions within a bound cannot decide it",
"C25":"timing and cache behaviour is a relation between executions on micro-architectural state that no bounded enumeration of functional executions observes; the library also makes no constant-time claim (floating point, data-dependent loops)"}
checks=[];n=[]
for p in props:
    i=p['id']
    if i in PROPS:
        s=PROPS[i]
        checks.append(dict(property=i,quick_cmd=f"python3 run.py {i} --tier quick",thorough_cmd=f"python3 run.py {i} --tier thorough",
          evidence_file=f"evidence/{i}.json",technique=s.get("technique","bounded exhaustive model checking of the real code (stateless exploration against a reference model)"),
          level=s.get("level","model_checking"),level_note=s["note"]))
    else:
        n.append(dict(property=i,reason=na.get(i,"check not built yet")))
m=dict(version=1,setup_cmd="python3 -c \"import json; json.load(open('known-findings.json'))\"",
 hooks=dict(guard="none",enable="no hooks in /repo: the checks include /repo/include as it is and own the environment through verif/shim/shake256.hpp, std::random_device and heap interposition",source_commits=[]),
 checks=checks,not_applicable=n,
 notes="Every check compiles its explorers from /repo/include on every run. See DESIGN.md.")
json.dump(m,open(H+'/MANIFEST.json','w'),indent=1,ensure_ascii=False)
print(len(checks),[x['property'] for x in n])
