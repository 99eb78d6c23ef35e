#!/usr/bin/env python3
import json,os,glob,re
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(root+"/properties.jsonl")]
spec="".join(open(f).read() for f in sorted(glob.glob(root+"/contracts/*.spec")))
claimed=set(re.findall(r"\bC\d\d\b",spec))
notes=json.load(open(root+"/tools/notes.json")) if os.path.exists(root+"/tools/notes.json") else {}
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in claimed:
        checks.append({"property":i,"quick_cmd":"bash check.sh "+i,"thorough_cmd":"VERIF_TIER=thorough bash check.sh "+i,
          "technique":"contract-based deductive verification of the Go source (go/ssa symbolic execution, SMT) plus runtime checks of the contracts",
          "level":"proof","level_note":notes.get(i,"Every obligation generated from the contracts of the functions that carry the property is discharged by SMT on each run; the harness re-checks the property on concrete histories (bounded, not counted as proof). Assumes partial correctness, the monitor discipline of C22, and the contracts listed as trusted in the evidence.")})
    else:
        na.append({"property":i,"reason":notes.get(i,"no contract built yet")})
m={"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na,
   "notes":"Contracts in contracts/*.spec, verifier in gover/, harness in harness/. No hooks in /repo; fix: commits are listed in known_findings.txt."}
open(root+"/MANIFEST.json","w").write(json.dumps(m,indent=1)+"\n")
print(len(checks),"claimed",len(na),"not")
