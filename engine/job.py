"""one verification job: a harness (contracts + the real sources) in one configuration; prints nothing, writes a JSON result"""
import json
import os
import subprocess
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)


def model_inputs(eng, model):
    """values of the scalar inputs in the verifier's counterexample"""
    if not model or model is True:
        return {}
    import z3

    out = {}
    m = model[0] if isinstance(model, (tuple, list)) else model
    try:
        for d in m.decls():
            n = d.name()
            v = m[d]
            if n.startswith("in:"):
                k = n[3:]
            else:
                continue
            if z3.is_true(v) or z3.is_false(v):
                out[k] = 1.0 if z3.is_true(v) else 0.0
            elif z3.is_int_value(v):
                out[k] = float(v.as_long())
            elif z3.is_rational_value(v):
                out[k] = float(v.as_fraction())
            elif z3.is_algebraic_value(v):
                out[k] = float(v.approx(12).as_fraction())
    except Exception:
        pass
    return out


import shutil

CXXFILT = shutil.which("llvm-cxxfilt-18") or "c++filt"


def demangle(names):
    p = subprocess.run([CXXFILT], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    return p.stdout.split("\n")


def short(x):
    """function name without template arguments, parameters and constraints"""
    out, d = "", 0
    x = x.replace("operator()", "operator@").replace("operator<", "operator&lt").replace("(anonymous namespace)", "{anon}")
    for ch in x:
        if ch in "<":
            d += 1
        elif ch in ">":
            d -= 1
        elif d == 0:
            if ch == "(":
                break
            out += ch
    out = out.replace("operator@", "operator()").replace("&lt", "<")
    return out.split(" ")[-1] if "operator " not in out else out


def main():
    spec = json.load(open(sys.argv[1]))
    res = {"spec": spec, "status": "ok", "obligations": 0, "discharged": 0, "failures": [], "by": {}, "covers": [], "functions": [], "kernels": 0}
    t0 = time.time()
    deadline = t0 + spec.get("wall", 500)
    f = None
    try:
        import build

        import llvmir
        import prove
        import symex
        import builtins_

        cfg = dict(spec["cfg"])
        f = build.ir(spec["harness"], cfg)
        while True:
            m = llvmir.Module(f)
            e = symex.Engine(m)
            res["compile_s"] = round(time.time() - t0, 2)
            e.deadline = deadline
            try:
                e.run("vc_main")
                break
            except symex.Unsupported as x:
                # a function of the repository defined in another file than the harness expects
                n = str(x).split("call of a function without contract: ")
                q = build.definition(n[1].split()[0], spec["harness"], cfg.get("link", ())) if len(n) == 2 and len(cfg.get("link", ())) < 4 else None
                if q is None:
                    raise
                cfg["link"] = list(cfg.get("link", ())) + [q]
                f = build.ir(spec["harness"], cfg) # the same file
        if cfg.get("link"):
            res["linked"] = cfg["link"]
        res["symex_s"] = round(time.time() - t0 - res["compile_s"], 2)
        res["kernels"] = [str(k) if isinstance(k, str) else str(k[0]) for k in e.kernels][:200]
        fs = demangle(sorted(x for x in e.funcs_seen if "hclpp" in x or not x.startswith("_Z")))
        fs = [short(x) for x in fs]
        res["functions"] = sorted(set(x for x in fs if x.startswith("hclpp::") or " hclpp::" in x or x.startswith("ini_") or x.startswith("INI")))
        res["loop_contracts"] = [str(x) for x in getattr(e, "loop_contract_used", [])]
        res["use_contracts"] = [str(x) for x in getattr(e, "funcs_by_contract", [])]
        kinds = spec.get("kinds")
        triv = len(e.trivial) if not kinds else sum(e.trivial_kind.get(k, 0) for k in kinds)
        auto = e.auto_ok if isinstance(e.auto_ok, int) else 0
        res["trivial"] = triv
        res["obligations"] = triv + auto
        res["discharged"] = triv + auto
        if triv:
            res["by"]["simplification during generation"] = triv
        if auto:
            res["by"]["bounds/race decided during generation"] = auto
        sh = spec.get("shard")
        obls = [(i, o) for i, o in enumerate(e.obls) if not kinds or o.kind in kinds]
        if sh:
            obls = [(i, o) for i, o in obls if i % sh[1] == sh[0]]
            if sh[0] != 0:
                res["obligations"] = res["discharged"] = res["trivial"] = 0
                res["by"] = {}
        tmo = spec.get("tmo", 8)
        slow = []
        for i, o in obls:
            res["obligations"] += 1
            if len(res["failures"]) >= 4 or time.time() > deadline:
                res["failures"].append({"name": o.name, "kind": o.kind, "why": "not attempted after earlier failures" if len(res["failures"]) >= 4 else "time limit of the job", "inputs": {}, "skipped": True})
                continue
            t1 = time.time()
            b = tmo * 6 if not res["failures"] else tmo * 3
            b = max(1.0, min(b, deadline - time.time()))
            r = prove.prove(e, o.pc, o.goal, tmo, b)
            if not r.ok and not (r.model and r.model is not True) and not res["failures"] and time.time() + tmo * 10 < deadline:
                r = prove.prove(e, o.pc, o.goal, tmo * 3, min(tmo * 18, deadline - time.time()))
            dt = time.time() - t1
            if dt > 2:
                slow.append([o.name, round(dt, 1), r.by])
            if r.ok:
                res["discharged"] += 1
                k = r.by or "ring"
                res["by"][k] = res["by"].get(k, 0) + 1
            else:
                inp = model_inputs(e, r.model)
                leaf = ""
                try:
                    if r.leaf:
                        leaf = str(r.leaf[1])[:1500]
                except Exception:
                    pass
                res["failures"].append({"name": o.name, "kind": o.kind, "why": str(r.why), "inputs": inp, "goal": str(o.goal)[:1500], "leaf": leaf, "hyps": [str(x)[:300] for x in o.pc][:40], "seconds": round(dt, 1)})
        res["slow"] = slow
        seen = {}
        for n, pc in e.covers:
            seen.setdefault(n, []).append(pc)
        if not sh or sh[0] == 0:
            for n, pcs in sorted(seen.items()):
                reach = False
                for pc in pcs[:8]:
                    p = prove.Prover(e, 3, 9, ext=False)
                    r = p.prove(pc, symex.FALSE)
                    if not r.ok:
                        reach = True
                        break
                res["covers"].append([n, reach])
                if not reach:
                    res["failures"].append({"name": "reachability of '%s'" % n, "kind": "cover", "why": "no input reaches this point under the preconditions", "inputs": {}})
            for n in spec.get("covers", []):
                if n not in seen:
                    res["covers"].append([n, False])
                    res["failures"].append({"name": "reachability of '%s'" % n, "kind": "cover", "why": "no path reaches this point", "inputs": {}})
        res["stats"] = {k: (round(v, 2) if isinstance(v, float) else v) for k, v in prove.STATS.items()}
        if res["obligations"] == 0 and not sh:
            res["failures"].append({"name": "obligations are generated", "kind": "vacuity", "why": "no obligation", "inputs": {}})
    except Exception as x:
        res["status"] = type(x).__name__
        res["error"] = (str(x) + "\n" + traceback.format_exc())[-6000:]
    finally:
        if f and os.path.exists(f):
            os.unlink(f)
    res["wall_s"] = round(time.time() - t0, 2)
    json.dump(res, open(sys.argv[2], "w"))


main()
