import json,os
V='/verif'
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
served=set(open(V+'/tools/claimed.txt').read().split())
na=dict(l.rstrip('\n').split('\t',1) for l in open(V+'/tools/not_applicable.txt') if '\t' in l)
tech="contract-based deductive verification of the real Go source: contracts in /verif/contracts, obligations generated from the SSA form of /repo's current tree by gocv (symbolic execution, loop summaries, no bound on inputs or iterations) and discharged by z3/cvc5"
bounded=set(open(V+'/tools/bounded.txt').read().split())
notes={}
for l in open(V+'/tools/level_notes.txt'):
    if '\t' in l:
        k,v=l.rstrip('\n').split('\t',1); notes[k]=v
checks=[]
for p in props:
    if p['id'] in served:
        if p['id'] in bounded:
            checks.append({"property":p['id'],"quick_cmd":f"bash /verif/check.sh {p['id']} quick","thorough_cmd":f"bash /verif/check.sh {p['id']} thorough","technique":"bounded stand-in for contracts out of the verifier's reach: seeded tests of the real code against the postconditions","level":"other","level_note":notes[p['id']]})
            continue
        checks.append({"property":p['id'],"quick_cmd":f"bash /verif/check.sh {p['id']} quick","thorough_cmd":f"bash /verif/check.sh {p['id']} thorough","technique":tech,"level":"proof","level_note":notes.get(p['id'],"every obligation of the property's contracts is discharged by the solvers; assumptions in the evidence file and DESIGN.md; the replay search on the real code is bounded and not counted")})
nal=[{"property":p['id'],"reason":na.get(p['id'],"not yet under contract")} for p in props if p['id'] not in served]
m={"version":1,"setup_cmd":"bash /verif/check.sh setup","checks":checks,"hooks":{"guard":"verif","enable":"none: no hooks were added to /repo; contracts and drivers live in /verif","source_commits":[]},"not_applicable":nal,"notes":"Evidence in /verif/evidence; replay files in /verif/evidence/replay."}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
