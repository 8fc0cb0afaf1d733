#!/usr/bin/env python3
"""check.py PROP [--thorough]   decide one property against /repo's working tree
   check.py --setup             build everything once (fills the private compiler cache)
   check.py --replay FILE       run the violating case of a replay file again"""
import sys, os, json, time, subprocess, re
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + "/tools")
import build as bld
from spec import HARNESS, CHECKS
B = bld.B

def run_env():
    e = dict(os.environ)
    e.update(OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", NGS_NUM_THREADS="1", LD_LIBRARY_PATH=bld.LIBD + ":" + bld.NGS + "/lib", LD_BIND_NOW="")
    e.pop("LD_BIND_NOW", None)
    return e

def known(prop):
    k = json.load(open(V + "/known_findings.json"))
    return [f for f in k.get("findings", []) if f["property"] == prop]

def run_part(prop, part, thorough, budget, extra=()):
    exe = f"{B}/bin/{part['harness']}"
    out = f"{B}/out/{prop}-{part['harness']}.json"
    os.makedirs(B + "/out", exist_ok=True)
    if os.path.exists(out): os.remove(out)
    cmd = [exe, "--prop", prop, "--out", out, "--workers", str(os.cpu_count() or 8), "--budget", str(budget), "--hang", str(part.get("hang", 120)), "--maxviol", "40"]
    if thorough: cmd.append("--thorough")
    cmd += list(extra)
    p = subprocess.run(cmd, env=run_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=B + "/out")
    if not os.path.exists(out):
        raise RuntimeError("harness gave no result: %s\n%s" % (cmd, p.stdout.decode(errors="replace")[-3000:]))
    return json.load(open(out))

def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    if a[0] == "--setup":
        bld.build(sorted(HARNESS), HARNESS); print("built", " ".join(sorted(HARNESS))); return 0
    if a[0] == "--replay":
        r = json.load(open(a[1])); bld.build([r["harness"]], HARNESS)
        cmd = [f"{B}/bin/{r['harness']}", "--prop", r["property"], "--case", r["case"], "-v"]
        if r.get("thorough"): cmd.append("--thorough")
        return subprocess.run(cmd, env=run_env()).returncode
    prop = a[0]; thorough = "--thorough" in a or (os.environ.get("VERIF_TIER") == "thorough" and "--quick" not in a)
    tier = "thorough" if thorough else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    c = CHECKS[prop]
    names = sorted({p["harness"] for p in c["parts"]})
    try: bld.build(names, HARNESS)
    except RuntimeError as e:
        print(str(e)); print("check could not be built"); return 2
    total = c.get("thorough_s", 3000) if thorough else c.get("quick_s", 420)
    res = []
    for p in c["parts"]:
        left = max(20, total - (time.time() - t0)) / (len(c["parts"]) - len(res))
        res.append((p, run_part(prop, p, thorough, int(left))))
    kf = known(prop); hit = set(); viol = []
    for p, r in res:
        for v in r["violations"]:
            text = v["kind"] + ": " + v["text"]
            m = None
            for i, f in enumerate(kf):
                if re.fullmatch(f["case"], v["case"]) and re.search(f["text"], text): m = i; break
            if m is None: viol.append((p, v, text))
            else: hit.add(m)
    for i in sorted(hit): print("KNOWN-FINDING: property=%s %s" % (prop, kf[i]["what"]))
    os.makedirs(B + "/replays", exist_ok=True)
    for n, (p, v, text) in enumerate(viol[:10]):
        path = f"{B}/replays/{prop}-{n}.json"
        json.dump(dict(property=prop, harness=p["harness"], case=v["case"], thorough=thorough, kind=v["kind"], text=v["text"], detail=v["detail"],
                       replay=f"python3 {V}/check.py --replay {path}"), open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("   case %s\n   %s" % (v["case"], text[:1500]))
    tot = lambda k: sum(r[k] for _, r in res)
    notes = {}
    for _, r in res:
        for k, x in r["notes"].items(): notes[k] = notes.get(k, 0) + x
    cov = dict(evaluations=tot("evaluations"), cases=tot("cases"), samples=[s for _, r in res for s in r["samples"]][:12], exhaustive=tot("truncated") == 0, details=notes)
    if tot("truncated"): cov["truncated"] = [r["truncated_why"] for _, r in res if r["truncated"]]
    if c["level"] == "model_checking":
        cov.update(states=tot("states"), transitions=tot("transitions"), traces_validated_against_impl=tot("traces"), distinct_outcomes=tot("distinct"))
    else:
        cov.update(distinct_nontrivial=tot("distinct"), rule=c["rule"])
    ev = dict(property=prop, tier=tier, seed=seed, level=c["level"], coverage=cov, assumptions=c.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    print("%s %s: %d cases, %d executions, %d transitions, %d states, %s, %.1f s, %d violation(s)" % (prop, tier, tot("cases"), tot("evaluations"), tot("transitions"), tot("states"),
          "exhaustive within bounds" if cov["exhaustive"] else "TRUNCATED " + str(cov.get("truncated")), time.time() - t0, len(viol)))
    return 1 if viol else 0

sys.exit(main())
