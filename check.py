#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: proves the property's obligations on /repo's current sources.
exit 0: every obligation discharged (listed known findings aside); exit 1 with a VIOLATION line otherwise."""
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/veriftools/pyvenv/bin/python3"
if not os.path.exists(PY):
    PY = "python3-vt"
sys.path.insert(0, os.path.join(HERE, "engine"))
import build
import jobs as J


def label(j):
    c = j["cfg"]
    if j["harness"].startswith("cbmc/"):
        return j["harness"] + " " + c["def"]["PART"]
    s = "%s ndim=%s %s %s" % (j["harness"], c["ndim"], c["geom"], c["eos"])
    if c.get("grav"):
        s += " " + c["grav"]
    for k, v in sorted(c.get("def", {}).items()):
        s += " %s=%s" % (k, v)
    return s


def spawn(j, work, i, wall):
    c = j["harness"].startswith("cbmc/")
    spec = {"harness": os.path.join(HERE, *([] if c else ["harness"]), j["harness"]), "cfg": j["cfg"], "tmo": j.get("tmo", 8), "wall": wall}
    for k in ("shard", "covers", "kinds"):
        if k in j:
            spec[k] = j[k]
    a, b = os.path.join(work, "job%d.json" % i), os.path.join(work, "res%d.json" % i)
    json.dump(spec, open(a, "w"))
    if os.path.exists(b):
        os.unlink(b)
    env = dict(os.environ, PYTHONHASHSEED="0", OMP_NUM_THREADS="1", VC_WORK=os.path.join(HERE, "build"))
    p = subprocess.Popen([PY, os.path.join(HERE, "engine", "cjob.py" if c else "job.py"), a, b], stdout=open(os.path.join(work, "out%d.txt" % i), "w"), stderr=subprocess.STDOUT, env=env, start_new_session=True)
    return p, b, time.time()


def run_all(js, work, total):
    t0 = time.time()
    todo = list(enumerate(js))
    todo.sort(key=lambda x: -x[1].get("cost", 1))
    running, results = {}, {}
    n = os.cpu_count() or 4
    while todo or running:
        while todo and len(running) < n:
            i, j = todo.pop(0)
            left = total - (time.time() - t0)
            if left < 5:
                results[i] = {"status": "TimeLimit", "error": "no time left", "failures": [], "obligations": 0, "discharged": 0}
                continue
            running[i] = spawn(j, work, i, left - 3) + (left,)
        time.sleep(0.05)
        for i in list(running):
            p, b, ts, left = running[i]
            if p.poll() is not None:
                try:
                    results[i] = json.load(open(b))
                except Exception:
                    results[i] = {"status": "Crash", "error": open(os.path.join(work, "out%d.txt" % i)).read()[-3000:], "failures": [], "obligations": 0, "discharged": 0}
                del running[i]
            elif time.time() - ts > left + 5:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                results[i] = {"status": "TimeLimit", "error": "job exceeded its time limit", "failures": [], "obligations": 0, "discharged": 0}
                del running[i]
    return results


def replay(j, res, work, seed, secs, i):
    """build the harness natively against the real code and look for a failing input, first at the verifier's counterexample"""
    if j.get("native", True) is False:
        return None, "this harness has no native form"
    out = os.path.join(work, "nat%d" % i)
    if j["harness"].startswith("cbmc/"):
        inih = os.path.join(build.REPO, "vendor", "inih")
        try:
            build.run(["gcc", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-I" + os.path.join(inih, "include"), os.path.join(HERE, "cbmc", "ini_native.c"), os.path.join(inih, "src", "ini.c"), "-o", out], "native build")
            p = subprocess.run([out, str(seed), "100000000", str(secs)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=secs + 60, errors="replace", text=True)
        except Exception as x:
            return None, str(x)[-1500:]
        if p.returncode != 0:
            return p.stdout[:20000], "failing input found by executing the real code (seed %d)" % seed
        return None, p.stdout[-300:]
    try:
        build.native(os.path.join(HERE, "harness", j["harness"]), j["cfg"], out)
    except Exception as x:
        return None, "native build failed: " + str(x)[-1500:]
    models = [f["inputs"] for f in res.get("failures", []) if f.get("inputs")][:4] or [{}]
    msg = ""
    env = dict(os.environ)
    env["VC_STRINGS"] = j.get("strings", "")
    for k, m in enumerate(models):
        args = [out, str(seed + k), "10000000", str(secs / len(models))]
        if m:
            mf = os.path.join(work, "model%d_%d.txt" % (i, k))
            with open(mf, "w") as f:
                for a, b in m.items():
                    f.write("%s\t%.17g\n" % (a, b))
            args.append(mf)
        try:
            p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=secs + 30, env=env, errors="replace", text=True)
        except subprocess.TimeoutExpired:
            msg += "native run timed out\n"
            continue
        if p.returncode == 3:
            return p.stdout[:20000], "failing input found by executing the real code (seed %d%s)" % (seed + k, ", from the verifier's counterexample" if m else "")
        msg += p.stdout[-300:]
    return None, msg


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.environ["VC_WORK"] = os.path.join(HERE, "build")
    work = os.path.join(HERE, "build", "check_%s_%d" % (pid, os.getpid()))
    os.makedirs(work, exist_ok=True)
    js = [j for j in J.JOBS[pid] if tier == "thorough" or j["tier"] == "quick"]
    total = 560 if tier == "quick" else 3000
    for d in sorted(set(json.dumps(j["cfg"], sort_keys=True) for j in js if not j["harness"].startswith("cbmc/"))):
        build.cfg_dir(json.loads(d))
    results = run_all(js, work, total)
    known = []
    kf = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(kf):
        for line in open(kf):
            # known: property=<id> obligation=/<regex>/ job=/<regex>/ <what fails>
            m = re.match(r"known: property=(\S+) obligation=/(.*?)/ job=/(.*?)/ (.*)$", line.strip())
            if m and m.group(1) == pid:
                known.append({"obligation": m.group(2), "job": m.group(3), "what": m.group(4)})
    bad, findings = [], []
    tot = dis = 0
    by, funcs, kernels, covers, slow = {}, set(), set(), 0, []
    perjob = []
    ztime = 0.0
    for i, j in enumerate(js):
        r = results[i]
        tot += r.get("obligations", 0)
        dis += r.get("discharged", 0)
        for k, v in r.get("by", {}).items():
            by[k] = by.get(k, 0) + v
        funcs |= set(r.get("functions", []))
        for k in r.get("kernels", []) or []:
            kernels.add(k)
        covers += sum(1 for c in r.get("covers", []) if c[1])
        ztime += r.get("stats", {}).get("z3_time", 0)
        slow += [[label(j)] + s for s in r.get("slow", [])]
        perjob.append({"job": label(j), "obligations": r.get("obligations", 0), "discharged": r.get("discharged", 0), "covers": [c[0] for c in r.get("covers", []) if c[1]], "status": r.get("status"), "wall_s": r.get("wall_s"), **({"bounded": r["bounded"]} if r.get("bounded") else {})})
        fails = []
        for f in r.get("failures", []):
            hit = None
            for k in known:
                if re.search(k["obligation"], f["name"]) and re.search(k.get("job", ""), label(j)):
                    hit = k
            if hit:
                if hit not in findings:
                    findings.append(hit)
            else:
                fails.append(f)
        if r.get("status") != "ok":
            fails.append({"name": "generation of the obligations (%s)" % r.get("status"), "why": r.get("error", ""), "kind": "error", "inputs": {}})
        if fails:
            real = [f for f in fails if not f.get("skipped")]
            if real or r.get("status") != "ok":
                bad.append((i, j, dict(r, failures=fails)))
            elif not any(True for f in r.get("failures", []) if f not in fails):
                bad.append((i, j, dict(r, failures=fails)))
    for k in findings:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    code = 0
    if bad:
        code = 1
        rdir = os.path.join(HERE, "build", "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s.txt" % pid)
        found = None
        text = ["property %s: obligations that the verifier did not discharge on %s" % (pid, build.REPO), ""]
        for i, j, r in bad:
            text.append("== " + label(j))
            for f in r["failures"]:
                text.append("  FAILED obligation [%s] %s" % (f.get("kind"), f["name"]))
                text.append("    verifier: %s" % f.get("why"))
                if f.get("goal"):
                    text.append("    goal: " + f["goal"])
                if f.get("leaf"):
                    text.append("    undischarged: " + f["leaf"])
                if f.get("inputs"):
                    text.append("    counterexample (scalars): " + json.dumps(f["inputs"]))
        left = max(30, 800 - (time.time() - t0))
        order = bad[:6]
        secs = min(25.0, left / (len(order) + 1) / 1.5)
        for i, j, r in order:
            if time.time() - t0 > 780:
                break
            out, how = replay(j, r, work, seed, secs, i)
            text.append("== native execution of the real code: %s: %s" % (label(j), how))
            if out:
                text.append(out)
                found = (label(j), out.split("\n")[0])
                break
        open(path, "w").write("\n".join(text) + "\n")
        for i, j, r in bad[:5]:
            print("undischarged in %s:" % label(j))
            for f in r["failures"][:5]:
                print("   [%s] %s: %s" % (f.get("kind"), f["name"], str(f.get("why")).split("\n")[0][:200]))
        if found:
            print("failing input on the real code: %s: %s" % found)
        print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if found else " no-failing-input-found"))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": tot, "discharged": dis,
            "checker_cmd": "python3 /verif/check.py %s %s" % (pid, tier),
            "trusted_base": ["/verif/engine (VC generator over clang IR, ring/sign/interval prover)", "clang 18.1.3 front end and opt normalisation", "z3 4.8.12", "cvc5 1.1.2"] + (["cbmc and goto-instrument 6.11.0 (loop contracts)"] if any(j["harness"].startswith("cbmc/") for j in js) else []) + [ "/verif/stub (specification of Kokkos, MPI and C++ library callees)"],
            "discharged_by": by, "functions_under_contract": sorted(funcs), "data_parallel_kernels": sorted(kernels), "reachability_checks": covers,
            "solver_seconds": round(ztime, 2), "jobs": perjob, "slow_obligations": slow[:20],
            "known_findings": [k["what"] for k in findings],
        },
        "assumptions": J.COMMON + J.ASSUME.get(pid, []),
        "wall_s": round(time.time() - t0, 2), "violations": len(bad),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for f in os.listdir(work):
        os.unlink(os.path.join(work, f))
    os.rmdir(work)
    print("%s %s: %d obligations, %d discharged, %d functions, %.1f s" % (pid, tier, tot, dis, len(funcs), time.time() - t0))
    return code


sys.exit(main())
