#!/usr/bin/env python3
"""development aid: build a seeded bug from a spec file (python: ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO, CFG) and confirm it"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = r'''#!/bin/bash
# runs the real sources of the repository in the current directory on one concrete situation; exit 0 when the property holds there
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 9
trap 'rm -rf "$tmp"' EXIT
for f in ndim geom eos; do
  sed -e 's/@Heraclespp_NDIM@/%(ndim)s/g' -e 's/@Heraclespp_GEOM@/%(geom)s/g' -e 's/@Heraclespp_EOS@/%(eos)s/g' "$repo/src/utils/$f.hpp.in" > "$tmp/$f.hpp" || exit 9
done
inc=(-I"$here/mini" -I"$here/mini/kokkos" -I"$here/mini/mpi" -I"$here/mini/misc" -I"$here/mini/spec" -I"$here/own" -I"$tmp" -I"$repo/src" -I"$repo/vendor" -I"$repo/vendor/inih/include" -I"$repo/vendor/inih/src")
for d in "$repo"/src/*/; do case "$d" in */setups/) ;; *) inc+=(-I"$d") ;; esac; done
clang++-18 -std=c++20 -w -O1 -ffp-contract=off -DVC_NATIVE=1 -DVC_NDIM=%(ndim)s %(flags)s "${inc[@]}" "$here/demo.cpp" "$here/mini/native.cpp" -o "$tmp/demo" > "$tmp/log" 2>&1 || { head -c 2000 "$tmp/log"; exit 8; }
"$tmp/demo" 1 200 60
'''
def main(path):
    ns = {}
    exec(open(path).read(), ns)
    ID = ns["ID"]
    d = os.path.join(V, "seeded", ID)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree(os.path.join(V, "stub"), os.path.join(d, "mini"))
    os.makedirs(os.path.join(d, "mini", "spec"))
    for f in ns.get("SPEC", ["contracts.hpp", "mpi_contract.hpp", "grid_common.hpp"]):
        shutil.copy(os.path.join(V, "harness", f), os.path.join(d, "mini", "spec", f))
    cfg = dict({"ndim": 1, "geom": "Cartesian", "eos": "PerfectGas", "flags": ""}, **ns.get("CFG", {}))
    open(os.path.join(d, "demo.cpp"), "w").write(ns["DEMO"].lstrip())
    for f, t in ns.get("FILES", {}).items():
        os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
        open(os.path.join(d, f), "w").write(t.lstrip())
    open(os.path.join(d, "demo.sh"), "w").write(ns["SH"] if "SH" in ns else SH % cfg)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    t = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    r = os.path.join(t, "repo")
    subprocess.check_call(["cp", "-a", "/repo", r])
    def demo():
        p = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.returncode, p.stdout[:800]
    print("clean:", demo())
    for f, old, new in ns["EDITS"]:
        p = os.path.join(r, f)
        s = open(p).read()
        assert s.count(old) >= 1, (f, "not found")
        n = ns.get("COUNT", 1)
        assert s.count(old) == n, (f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=r, stdout=subprocess.PIPE, text=True).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    print("patched:", demo())
    subprocess.check_call(["git", "-C", "/repo", "apply", "--check", os.path.join(d, "patch.diff")])
    shutil.rmtree(t)
main(sys.argv[1])
