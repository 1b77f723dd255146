"""one job of the C contracts (CBMC back end): same interface as job.py"""
import itertools
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build

HELPERS = ("lskip", "rstrip", "find_chars_or_comment", "strncpy0")
CBMC = ["--bounds-check", "--pointer-check", "--signed-overflow-check", "--div-by-zero-check"]


class Fail(Exception):
    pass


def sh(cmd, cwd, tmo):
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=max(1, tmo), text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise Fail("time limit: " + " ".join(cmd)[:200])
    return p.returncode, p.stdout


def need(cmd, cwd, tmo):
    rc, out = sh(cmd, cwd, tmo)
    if rc != 0:
        raise Fail(" ".join(cmd)[:200] + "\n" + out[-2000:])
    return out


def functions(g, cwd):
    out = need(["goto-instrument", "--list-goto-functions", g], cwd, 60)
    return {m.group(1) for m in re.finditer(r"^(\S+) /\* (\S+) \*/$", out, re.M)}


def cbmc(g, cwd, tmo, extra):
    rc, out = sh(["cbmc", g] + CBMC + extra, cwd, tmo)
    props = [{"property": m.group(1), "description": m.group(3), "status": m.group(4), "line": m.group(2)}
             for m in re.finditer(r"^\[(\S+)\] (?:file \S+ )?(?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$", out, re.M)]
    if not props or rc not in (0, 10) or not re.search(r"^VERIFICATION (SUCCESSFUL|FAILED)", out, re.M):
        raise Fail("cbmc gave no result: " + out[-1500:])
    # __CPROVER_r_ok is meant to be asked about any pointer; the rest of an invariant is guarded by it
    return [p for p in props if not p["property"].startswith("_fn.pointer_primitives")]


def symbols(g, cwd):
    out = need(["goto-instrument", "--show-symbol-table", "--json-ui", g], cwd, 60)
    for o in json.loads(out):
        if "symbolTable" in o:
            return o["symbolTable"]
    return {}


def locals_of(g, f, cwd):
    """(name, symbol, kind, width or element count, size of the pointee) of the parameters and function-scope locals"""
    res = []
    for k, s in symbols(g, cwd).items():
        m = re.match(re.escape(f) + r"::(?:1::)?(\w+)$", k)
        if m and "$" not in k and s.get("isLvalue", True):
            ty = s["type"]
            t, w, e = ty["id"], None, None
            if t == "array":
                w = int(ty["namedSub"]["size"]["namedSub"]["value"]["id"], 16)
            elif t in ("signedbv", "unsignedbv"):
                w = int(ty["namedSub"]["width"]["id"])
            elif t == "pointer":
                e = ty["sub"][0]["id"] + ty["sub"][0].get("namedSub", {}).get("width", {}).get("id", "")
            elif t in ("code", "empty"):
                continue
            res.append((m.group(1), k, t, w, e))
    return res


def assigned(g, f, cwd):
    """names of the variables assigned, or whose address is taken, in a loop of the function"""
    out = need(["goto-instrument", "--show-goto-functions", g], cwd, 60)
    m = re.search(r"^%s /\* .*?\n(.*?)END_FUNCTION" % re.escape(f), out, re.M | re.S)
    lines = [l for l in (m.group(1) if m else "").split("\n") if not l.lstrip().startswith("//")]
    label = {}
    for i, l in enumerate(lines):
        k = re.match(r"\s*(\d+): ", l)
        if k:
            label[k.group(1)] = i
    res = set()
    for j, l in enumerate(lines):
        k = re.search(r"GOTO (\d+)$", l.rstrip())
        i = label.get(k.group(1)) if k else None
        if i is not None and i <= j:
            body = "\n".join(lines[i:j + 1])
            res |= set(re.findall(r"(?:ASSIGN|CALL) %s::(?:1::)?(\w+)(?:\[[^\n]*?\])? :=" % re.escape(f), body))
            res |= set(re.findall(r"address_of\(%s::(?:1::)?(\w+)[\)\[]" % re.escape(f), body))
    return res


LIB = ("isspace", "strlen", "strchr", "strncpy")


def options(part, vs):
    """candidate loop invariants: for every assigned variable a list of alternatives, and the common conjuncts"""
    ptr = [v for v in vs if v[2] == "pointer" and v[4] in ("signedbv8", "unsignedbv8")]
    num = [v for v in vs if v[2] in ("signedbv", "unsignedbv") and v[3] >= 32]
    if part == "READER":
        for p in ptr:
            for q in ptr:
                for x in num:
                    for y in num:
                        if p != q and x != y:
                            c = "(%s - OUT)" % p[0]
                            yield ["__CPROVER_same_object(%s, OUT) && __CPROVER_r_ok(%s, 1) && %s >= 0 && %s < N_ && (unsigned long)%s <= g_left" % (p[0], p[0], c, c, c), "__CPROVER_same_object(%s, g_in) && %s == g_in + %s" % (q[0], q[0], c), "%s == g_left - %s" % (x[0], c), "%s == N_ - %s" % (y[0], c),
                                   "(!(g_k < (unsigned long)%s) || (OUT[g_k] == g_in[g_k] && g_in[g_k] != 10))" % c]
        return
    common = ["L[g_z] == 0"]
    if part == "RSTRIP":
        common += ["(L[g_k] == g_before || (L[g_k] == 0 && g_k >= g_off && g_k < g_z && (g_before == 32 || (g_before >= 9 && g_before <= 13))))"]
    sp = lambda i: "(L[%s] == 32 || (L[%s] >= 9 && L[%s] <= 13))" % (i, i, i)
    stop = "(L[g_k] == 0 || (g_c1 && (L[g_k] == g_c1 || (g_c2 && L[g_k] == g_c2))) || (g_k > g_off && %s && L[g_k] == 59))" % sp("g_k - 1")
    seen = {"LSKIP": sp("g_k"), "FIND": "!" + stop}
    alts = []
    at = []
    for v in ptr + num:
        if v in ptr:
            o = "(%s - L)" % v[0]
            rng = "__CPROVER_same_object(%s, L) && __CPROVER_r_ok(%s, 1) && %s >= (long)g_off && %s <= (long)g_z" % (v[0], v[0], o, o)
        else:
            o = "(long)(g_off + %s)" % v[0]
            rng = "%s <= g_z - g_off" % v[0] if v[2] == "unsignedbv" else "%s >= 0 && %s <= (long)(g_z - g_off)" % (v[0], v[0])
        at.append((v, o))
        alts.append(([rng + " && (!(g_k >= g_off && (long)g_k < %s) || %s)" % (o, seen[part])] if part in seen else []) + [rng, ""])
    if part == "FIND":
        for v in num:
            i = (ptr + num).index(v)
            alts[i] = ["(%s != 0) == (%s > (long)g_off && %s)" % (v[0], o, sp(o + " - 1")) for w, o in at if w != v] + alts[i]
    for ch in itertools.product(*alts):
        yield common + sorted((c for c in ch if c), key=lambda c: "!= 0) ==" in c)  # ranges first: they guard the rest


def measures(part, vs):
    for v in vs:
        if v[2] == "pointer":
            o, n = "(%s - %s)" % (v[0], "OUT" if part == "READER" else "L"), "200L" if part == "READER" else "(long)g_z"
            yield from (o, "%s - %s" % (n, o)) if part == "RSTRIP" else ("%s - %s" % (n, o), o)
        elif v[3] >= 32:
            yield v[0] if v[2] == "signedbv" else "(long)%s" % v[0]
            if part != "READER":
                yield "(long)(g_z - g_off) - (long)%s" % v[0]


def helper(part, f, cwd, deadline):
    """the loops of a helper under mechanically generated invariants; without a suitable one, complete unwinding for a short line (bounded)"""
    fs = functions("h.goto", cwd)
    if f not in fs:
        return [{"description": f + " does not exist; its body is verified where it was inlined", "status": "SUCCESS", "property": "absent"}], ""
    rep = []
    for l in LIB:
        if l in fs or True:
            rep += ["--replace-calls", "%s:vc_%s" % (l, l)]
    have = set(re.findall(r"Symbol\.*: (\w+)\n", need(["goto-instrument", "--show-symbol-table", "h.goto"], cwd, 60)))
    rep = [y for l in LIB if l in have and "vc_" + l in have for y in ("--replace-calls", "%s:vc_%s" % (l, l))]
    need(["goto-instrument"] + rep + ["h.goto", "a.goto"], cwd, 60)
    rm = [y for h in HELPERS + ("ini_reader_string", "ini_parse_stream", "ini_parse_string", "ini_parse_file", "ini_parse") if h != f and h in fs for y in ("--remove-function-body", h)]
    need(["goto-instrument"] + rm + ["a.goto", "b.goto"], cwd, 60)
    loops = [x for x in re.findall(r"Loop (\S+):", need(["goto-instrument", "--show-loops", "b.goto"], cwd, 60)) if x.startswith(f + ".")]
    if not loops:
        return cbmc("b.goto", cwd, deadline - time.time(), ["--unwind", "52", "--unwinding-assertions"]), ""
    loc = locals_of("b.goto", f, cwd)
    asg = assigned("b.goto", f, cwd)
    vs = [x for x in loc if x[0] in asg]
    gl = ["OUT", "g_in", "g_left", "g_k"] if part == "READER" else ["L", "g_z", "g_off", "g_k", "g_before", "g_c1", "g_c2"]
    arr = {"RSTRIP": ["L"], "READER": ["OUT"]}.get(part, [])
    lim = min(deadline - 60, time.time() + 240)
    if len(loops) == 1:
        for n, inv in enumerate(options(part, vs)):
            if n >= 60 or time.time() > lim:
                break
            c = {"loop_id": loops[0].split(".")[1], "assigns": ",".join([x[0] for x in vs] + ["__CPROVER_object_whole(%s)" % x for x in arr]),
                 "invariants": " && ".join("(%s)" % x for x in inv).replace("N_", "200L"), "symbol_map": ";".join(["%s,%s" % (x[0], x[1]) for x in loc] + ["%s,%s" % (x, x) for x in gl])}
            json.dump({"sources": ["ini.c"], "functions": [{f: [c]}]}, open(os.path.join(cwd, "lc.json"), "w"))
            rc, out = sh(["goto-instrument", "--loop-contracts-file", "lc.json", "--apply-loop-contracts", "b.goto", "d.goto"], cwd, 60)
            if rc != 0:
                if os.environ.get("VC_DEBUG"):
                    print(c["invariants"], out[-800:])
                continue
            try:
                props = cbmc("d.goto", cwd, max(5, min(int(os.environ.get('VC_T', 60)), lim - time.time())), [])
            except Fail as x:
                if os.environ.get("VC_DEBUG"):
                    print(c["invariants"], str(x)[-800:])
                continue
            if not any(p["status"] != "SUCCESS" for p in props):
                # termination: a measure over the same variables
                for m in measures(part, vs):
                    json.dump({"sources": ["ini.c"], "functions": [{f: [dict(c, decreases=m)]}]}, open(os.path.join(cwd, "lc.json"), "w"))
                    rc, out = sh(["goto-instrument", "--loop-contracts-file", "lc.json", "--apply-loop-contracts", "b.goto", "m.goto"], cwd, 60)
                    try:
                        q = cbmc("m.goto", cwd, max(5, min(60, lim - time.time())), []) if rc == 0 else []
                    except Fail:
                        continue
                    if q and not any(p["status"] != "SUCCESS" for p in q):
                        q.append({"description": "loop contract: " + c["invariants"] + " decreases " + m, "status": "SUCCESS", "property": "contract"})
                        return q, ""
                props.append({"description": "loop contract: " + c["invariants"], "status": "SUCCESS", "property": "contract"})
                return props, "no measure found: termination of the loop of %s is not proved as written" % f
            if os.environ.get("VC_DEBUG"):
                print(c["invariants"], [(p["property"], p["description"]) for p in props if p["status"] != "SUCCESS"])
    # no generated invariant fits the loops as written: complete unwinding for short lines, and a comparison with a
    # reference parser on random texts with lines of any length
    need(["goto-cc", "-DVC_" + part, "-D__NO_CTYPE", "-DINI_MAX_LINE=12"] + INC + [HARNESS, "-o", "s.goto"], cwd, 60)
    need(["goto-instrument"] + rep + ["s.goto", "a.goto"], cwd, 60)
    props = cbmc("a.goto", cwd, deadline - time.time(), ["--unwind", "54", "--unwinding-assertions"])
    if all(p["status"] == "SUCCESS" for p in props):
        need(["gcc", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", INC[1], os.path.join(os.path.dirname(HARNESS), "ini_native.c"), os.path.join(INC[0][2:], "ini.c"), "-o", "nat"], cwd, 60)
        rc, out = sh(["./nat", "1", "100000000", "20"], cwd, 60)
        props.append({"property": "native", "description": "random texts are read as the reference parser reads them", "status": "SUCCESS" if rc == 0 else "FAILURE", "line": None})
    return props, "bounded: no loop invariant found for %s as written; complete unwinding for lines shorter than 12 and random texts" % f


def stream(src, cwd, deadline, flags):
    """ini_parse_stream under a loop contract: helpers replaced by their contracts; the invariant is a conjunction over the
    local variables found in the symbol table (character arrays terminated, which counter is the line, which the result)"""
    fs = functions("h.goto", cwd)
    rep, rm = [], []
    for h in HELPERS:
        if h in fs:
            rep += ["--replace-calls", "%s:vc_%s" % (h, h)]
            rm += ["--remove-function-body", h]
    need(["goto-instrument"] + rep + ["h.goto", "a.goto"], cwd, 60)
    for h in ("ini_reader_string",):
        if h in fs:
            rm += ["--remove-function-body", h]
    need(["goto-instrument"] + rm + ["a.goto", "b.goto"], cwd, 60)
    loops = re.findall(r"Loop (\S+):", need(["goto-instrument", "--show-loops", "b.goto"], cwd, 60))
    mine = [x for x in loops if x.startswith("ini_parse_stream.")]
    others = [x for x in loops if not x.startswith("ini_parse_stream.") and not x.startswith("__CPROVER") and not x.startswith("str")]
    if others:
        need(["goto-instrument", "--unwindset", ",".join("%s:%d" % (x, 203) for x in others), "--unwinding-assertions", "b.goto", "c.goto"], cwd, 120)
        os.replace(os.path.join(cwd, "c.goto"), os.path.join(cwd, "b.goto"))
    loc = locals_of("b.goto", "ini_parse_stream", cwd)
    asg = assigned("b.goto", "ini_parse_stream", cwd)
    loc = [x for x in loc if x[0] in asg or x[2] == "array"]
    ghosts = "vc_line vc_z vc_bad vc_lines vc_first vc_left".split()
    ints = sorted((x for x in loc if x[2] == "signedbv" and x[3] == 32 and x[0] in asg), key=lambda x: (0 if "line" in x[0].lower() else 1))
    arrs = [x for x in loc if x[2] == "array"]
    if not mine:
        raise Fail("ini_parse_stream has no loop")
    last = None
    for lid in mine:
        for a, b in itertools.permutations(ints, 2):
            if time.time() > deadline - 10:
                raise Fail("time limit")
            inv = ["%s == vc_lines" % a[0], "%s == (vc_first ? vc_first : vc_bad ? vc_lines : 0)" % b[0], "(long)vc_lines + vc_left < 2147483647L", "vc_lines >= 0", "vc_left >= 0", "vc_first >= 0"]
            big = max([x[3] for x in arrs] or [0])
            inv += ["%s[%d] == 0" % (x[0], x[3] - 1) for x in arrs if x[3] != big]
            c = {"loop_id": lid.split(".")[1], "assigns": ",".join(["__CPROVER_object_whole(%s)" % x[0] for x in arrs] + [x[0] for x in loc if x[2] != "array"] + ghosts),
                 "invariants": " && ".join(inv), "decreases": "vc_left", "symbol_map": ";".join(["%s,%s" % (x[0], x[1]) for x in loc] + ["%s,%s" % (x, x) for x in ghosts])}
            json.dump({"sources": ["ini.c"], "functions": [{"ini_parse_stream": [c]}]}, open(os.path.join(cwd, "lc.json"), "w"))
            rc, out = sh(["goto-instrument", "--loop-contracts-file", "lc.json", "--apply-loop-contracts", "b.goto", "d.goto"], cwd, 60)
            if rc != 0:
                last = last or Fail("goto-instrument: " + out[-1500:])
                continue
            props = cbmc("d.goto", cwd, deadline - time.time(), [])
            props.append({"description": "loop contract: " + " && ".join(inv), "status": "SUCCESS", "property": "contract"})
            if not any(p["status"] != "SUCCESS" for p in props):
                return props
            if last is None or isinstance(last, Fail):
                last = props
    if isinstance(last, Fail):
        raise last
    if last is None:
        raise Fail("no candidate for the counters of ini_parse_stream")
    return last


INC, HARNESS = [], None


def main():
    global HARNESS
    spec = json.load(open(sys.argv[1]))
    t0 = time.time()
    deadline = t0 + spec.get("wall", 500)
    part = spec["cfg"]["def"]["PART"]
    res = {"spec": spec, "status": "ok", "obligations": 0, "discharged": 0, "failures": [], "by": {}, "covers": [], "functions": [], "kernels": []}
    cwd = tempfile.mkdtemp(prefix="cbmc", dir=os.environ.get("VC_WORK") if os.path.isdir(os.environ.get("VC_WORK", "")) else None)
    try:
        inih = os.path.join(build.REPO, "vendor", "inih")
        INC[:] = ["-I" + os.path.join(inih, "src"), "-I" + os.path.join(inih, "include")]
        HARNESS = spec["harness"]
        need(["goto-cc", "-DVC_" + part, "-D__NO_CTYPE"] + INC + [HARNESS, "-o", "h.goto"], cwd, 60)
        fs = functions("h.goto", cwd)
        real = {"LSKIP": ["lskip"], "RSTRIP": ["rstrip"], "FIND": ["find_chars_or_comment"], "STRNCPY0": ["strncpy0"], "STREAM": ["ini_parse_stream"],
                "READER": ["ini_reader_string"], "ENTRY": ["ini_parse", "ini_parse_file", "ini_parse_string"]}[part]
        res["functions"] = ["inih::" + f for f in real]
        if part == "STREAM":
            props = stream(spec["harness"], cwd, deadline, [])
        elif part == "ENTRY":
            need(["goto-instrument", "--replace-calls", "ini_parse_stream:vc_ini_parse_stream", "--replace-calls", "strlen:vc_strlen", "--replace-calls", "fopen:vc_fopen", "--replace-calls", "fclose:vc_fclose", "h.goto", "e.goto"], cwd, 60)
            props = cbmc("e.goto", cwd, deadline - time.time(), ["--unwind", "3", "--unwinding-assertions"])
        else:
            props, note = helper(part, real[0], cwd, deadline)
            if note:
                res["bounded"] = note
        res["solver_s"] = time.time() - t0
        res["stats"] = {"z3_time": round(time.time() - t0, 2)}
        for p in props:
            res["obligations"] += 1
            if p["status"] == "SUCCESS":
                res["discharged"] += 1
                res["by"]["cbmc (SAT)"] = res["by"].get("cbmc (SAT)", 0) + 1
            elif len(res["failures"]) < 12:
                res["failures"].append({"name": "%s: %s" % (p["property"], p["description"]), "kind": "cbmc", "why": p["status"] + (" at line %s" % p["line"] if p.get("line") else ""), "inputs": {}, "leaf": ""})
    except Fail as x:
        res["status"] = "Fail"
        res["error"] = str(x)
    finally:
        shutil.rmtree(cwd, ignore_errors=True)
    res["wall_s"] = round(time.time() - t0, 2)
    json.dump(res, open(sys.argv[2], "w"))


main()
