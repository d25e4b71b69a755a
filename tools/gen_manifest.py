#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=[json.loads(l)["id"] for l in open(root+"/properties.jsonl")]
T={
 "C01":"property-based testing of the arithmetic module against exact rational arithmetic",
 "C02":"property-based testing of curve points in a deployed market against exact fractions",
 "C19":"stateful model-based testing of a deployed price aggregator",
}
N={
 "C01":"Each quick run compares about 4 million generated evaluations (edge values, exact halves, mixed scales up to 10^60) with exact big-integer results.",
 "C02":"Curve points (parameters, totals, indexes) are poked into a real market and its views and accrual compared with exact fractions; histories add reachable states.",
 "C19":"Histories of submissions, clock moves, oracle changes and pauses are compared step by step with a round-by-round model, including views.",
}
std="Stateful model-based testing: histories of generated calls run on the real contracts, the complete decoded state is compared with an independent exact model after each call and with model-free invariants."
checks=[]
for i in ids:
    checks.append({"property":i,"quick_cmd":f"./run.sh {i}","thorough_cmd":f"./run.sh {i}",
      "evidence_file":f"evidence/{i}.json",
      "technique":T.get(i,"stateful model-based property testing with shrinking (proptest), exact reference model and history invariants"),
      "level":"exploration",
      "level_note":(N.get(i,std)+" Bounded search, no proof: trusts the MultiversX Rust VM, the stand-ins for external contracts and, where it decides, the reference model.")})
m={"version":1,
 "setup_cmd":"./setup.sh",
 "checks":checks,"not_applicable":[],
 "notes":"No hooks in /repo. Checks build /verif/harness (path dependencies on /repo) from scratch each run. Replay a failing case with ./run.sh <id> --replay <file>."}
json.dump(m,open(root+"/MANIFEST.json","w"),indent=1); open(root+"/MANIFEST.json","a").write("\n")
