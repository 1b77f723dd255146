"""compile a harness together with the real sources of /repo to LLVM IR (for the VC generator) or to a native program (replay)"""
import hashlib
import os
import re
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VC_REPO", "/repo")
WORK = os.environ.get("VC_WORK", os.path.join(VERIF, "build"))

GRAV = {"Uniform": "HERACLESPP_GRAVITY_Uniform", "Point_mass": "HERACLESPP_GRAVITY_Point_mass", "Internal_mass": "HERACLESPP_GRAVITY_Internal_mass"}


class BuildError(Exception):
    pass


def cfg_dir(cfg):
    name = "cfg_%(ndim)s_%(geom)s_%(eos)s" % cfg
    d = os.path.join(WORK, name)
    os.makedirs(d, exist_ok=True)
    u = os.path.join(REPO, "src", "utils")
    for f in ("ndim.hpp", "geom.hpp", "eos.hpp"):
        s = open(os.path.join(u, f + ".in")).read()
        s = s.replace("@Heraclespp_NDIM@", str(cfg["ndim"])).replace("@Heraclespp_GEOM@", cfg["geom"]).replace("@Heraclespp_EOS@", cfg["eos"])
        p = os.path.join(d, f)
        if not os.path.exists(p) or open(p).read() != s:
            t = p + ".%d" % os.getpid()
            open(t, "w").write(s)
            os.replace(t, p)
    return d


def includes(cfg, harness=None):
    r = os.path.join(REPO, "src")
    inc = [os.path.join(VERIF, "stub"), os.path.join(VERIF, "stub", "kokkos"), os.path.join(VERIF, "stub", "mpi"), os.path.join(VERIF, "stub", "misc"), os.path.join(VERIF, "harness"), cfg_dir(cfg), r]
    for d, ds, fs in os.walk(r):
        ds.sort()
        if "setups" in d:
            continue
        if d != r and any(f.endswith((".hpp", ".h")) for f in fs):
            inc.append(d)
    if harness and "// stubs:" in open(harness).read(400):
        # further contract headers named by the harness take precedence
        for n in open(harness).read(400).split("// stubs:")[1].split("\n")[0].split()[::-1]:
            if n == "pdi_spec":  # generated from the specification tree of PDI in the repository
                import pdigen

                try:
                    inc.insert(0, pdigen.write_header(REPO, WORK))
                except pdigen.SpecError as x:
                    raise BuildError("specification tree of PDI: %s" % x)
                continue
            inc.insert(0, os.path.join(VERIF, "stub", n))
    inc.append(os.path.join(REPO, "vendor"))
    inc.append(os.path.join(REPO, "vendor", "inih", "include"))
    inc.append(os.path.join(REPO, "vendor", "inih", "src"))
    return inc


def defines(cfg):
    d = ["-DVC_NDIM=%s" % cfg["ndim"]]
    if cfg.get("grav"):
        d.append("-D" + GRAV[cfg["grav"]])
    for k, v in sorted(cfg.get("def", {}).items()):
        d.append("-D%s=%s" % (k, v) if v != "" else "-D" + k)
    return d


def tag(harness, cfg):
    k = os.path.basename(harness).split(".")[0] + "_%(ndim)s%(geom).1s%(eos).1s" % cfg
    if cfg.get("grav"):
        k += "_" + cfg["grav"]
    for a, v in sorted(cfg.get("def", {}).items()):
        k += "_%s%s" % (a, v)
    return "".join(c if c.isalnum() or c in "_-" else "_" for c in k)


CXX = ["clang++-18", "-std=c++20", "-w", "-fno-math-errno", "-ffp-contract=off"]


def run(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("%s failed: %s\n%s" % (what, " ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def demangled(name):
    p = subprocess.run(["llvm-cxxfilt-18", name], stdout=subprocess.PIPE, text=True)
    return p.stdout.strip()


def definition(name, harness, given=()):
    """the source file of the repository that defines a function of it (a function may move from one file to another)"""
    d = demangled(name) if name.startswith("_Z") else name
    if "hclpp::" not in d.split("(")[0]:
        return None
    x = d.split("(")[0].split("::")[-1].split("<")[0].split(" ")[-1]
    if not re.fullmatch(r"\w+", x):
        return None
    text = open(harness).read()
    for r, ds, fs in sorted(os.walk(os.path.join(REPO, "src"))):
        for f in sorted(fs):
            q = os.path.join(r, f)
            if not f.endswith(".cpp") or f == "main.cpp" or "setups" in r or q in given or "<%s>" % f in text or '"%s"' % f in text:
                continue
            if re.search(r"\b%s\s*\([^;{}]*\)[^;{}]*\{" % x, open(q).read()):
                return q
    return None


def linked(harness, cfg):
    """the harness, followed by the further sources found to be needed"""
    if not cfg.get("link"):
        return harness
    p = os.path.join(WORK, tag(harness, cfg) + ".%d.link.cpp" % os.getpid())
    open(p, "w").write("".join('#include "%s"\n' % x for x in [os.path.abspath(harness)] + list(cfg["link"])))
    return p


def ir(harness, cfg):
    os.makedirs(WORK, exist_ok=True)
    out = os.path.join(WORK, tag(harness, cfg) + ".%d.ll" % os.getpid())
    tmp = out + ".0"
    cmd = CXX + ["-O1", "-Xclang", "-disable-llvm-passes", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-D_GLIBCXX_ASSERTIONS", "-S", "-emit-llvm"]
    cmd += cfg.get("flags", [])
    cmd += defines(cfg) + ["-I" + i for i in includes(cfg, harness)] + [linked(harness, cfg), "-o", tmp]
    try:
        run(cmd, "compilation of the code under its contracts")
        run(["opt-18", "-passes=always-inline,function(sroa<modify-cfg>,early-cse,instsimplify,simplifycfg),globaldce", "-S", tmp, "-o", out], "IR normalisation")
    finally:
        if os.path.exists(tmp):
            os.unlink(tmp)
        if cfg.get("link"):
            os.unlink(cmd[-3])
    return out


def native(harness, cfg, out):
    cmd = ["clang++-18", "-std=c++20", "-w", "-O1", "-g0", "-ffp-contract=off", "-DVC_NATIVE=1"]
    lib, obj = os.path.join(VERIF, "stub", "native.cpp"), None
    if includes(cfg, harness) != includes(cfg):
        obj = out + ".native.o"
        run(cmd + defines(cfg) + ["-I" + i for i in includes(cfg)] + ["-c", lib, "-o", obj], "native build")
        lib = obj
    cmd += defines(cfg) + ["-I" + i for i in includes(cfg, harness)] + [harness, lib, "-o", out]
    try:
        for n in range(4):
            try:
                run(cmd, "native build")
                break
            except BuildError as x:
                more = [definition(u, harness, cmd) for u in re.findall(r"undefined reference to `([^']*)'", str(x))] if n < 3 else []
                more = sorted(set(q for q in more if q))
                if not more:
                    raise
                cmd = cmd[:-2] + more + cmd[-2:]
    finally:
        if obj:
            os.unlink(obj)
    return out
