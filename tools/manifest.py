import json
A=json.load(open('/verif/specs/attribution.json'))
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
N=json.load(open('/verif/specs/notes.json'))
M={"version":1,"setup_cmd":"python3 check.py --setup","checks":[],"not_applicable":[],
"notes":"Contracts: specs/mods (overlays) on functions extracted from /repo/src on every run by vx; stand-ins with assumed contracts: specs/stubs.rs. Bounded stand-ins: harness/."}
for p in props:
    i=p['id']
    if A.get(i):
        M['checks'].append({"property":i,"quick_cmd":f"python3 check.py {i} --tier quick","thorough_cmd":f"python3 check.py {i} --tier thorough",
         "technique":"contract-based deductive verification (Verus) of functions extracted from the source on each run; bounded runs of the real code stand in for what is out of reach",
         "level":N.get(i,{}).get("level","proof"),"level_note":N.get(i,{}).get("note") or N["default"],"evidence_file":f"evidence/{i}.json",
         "theorems":[x if x!="*panics" else "no panic, overflow, out-of-bounds access or endless recursion in any function under contract" for x in A[i]]})
    else:
        M['not_applicable'].append({"property":i,"reason":N.get(i,{}).get("na","no function under contract yet")})
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(M,json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(M['checks']),[x['property'] for x in M['not_applicable']])
