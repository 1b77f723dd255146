import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "engine"))
import jobs as J
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NA = json.load(open(os.path.join(H, "tools", "not_applicable.json"))) if os.path.exists(os.path.join(H, "tools", "not_applicable.json")) else {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in J.JOBS:
        hs = sorted(set(j["harness"] for j in J.JOBS[i]))
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": J.TECH.get(i, "contract-based deductive verification: obligations generated from clang IR of the real sources under the contracts of harness/%s, discharged by a ring/sign prover with z3 and cvc5" % ", ".join(hs)),
            "level": J.LEVEL.get(i, "proof"),
            "level_note": J.NOTES.get(i, "Every obligation holds for all inputs over exact real arithmetic.") + " Assumes: " + "; ".join(J.ASSUME.get(i, ["nothing beyond the common assumptions"])) + ". Common: Kokkos/C++ library callees by their stated contracts, real for floating-point arithmetic, clang IR and the solvers trusted (see DESIGN.md).",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Every check recompiles /repo's current sources under the contracts in harness/, generates the proof obligations from the resulting IR and discharges them; nothing is cached between runs."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
