import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/tools")
from spec import CHECKS, NA
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="python3 check.py --setup",
  hooks=dict(guard="VF_HOOKS", enable="none needed: the harnesses replace NGSolve's MPI function pointers and interpose pthread calls at link time; no source of the repository is instrumented", source_commits=[]),
  checks=[dict(property=p, quick_cmd=f"python3 check.py {p}", thorough_cmd=f"python3 check.py {p} --thorough", evidence_file=f"evidence/{p}.json",
     technique=CHECKS[p]["technique"], level=CHECKS[p]["level"], level_note=CHECKS[p]["note"]) for p in props if p in CHECKS],
  not_applicable=[dict(property=p, reason=NA.get(p, "no check built yet")) for p in props if p not in CHECKS])
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
