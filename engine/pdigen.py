"""the transfers that the PDI specification tree of the repository (the string io_config that main hands to PDI) orders at each event, as C++:
the string is obtained by compiling config.yaml.cpp and printing it, parsed as YAML and translated expression by expression"""
import os
import re
import subprocess

import yaml

INT, REAL, CHARS = "int", "double", "char"


# the datasets of the property: they are in the file model even when no event of the specification names them
REQUIRED = {n: (REAL, 3) for n in ["rho", "P", "E", "T", "ux0", "ux1", "ux2"] + ["fx%d" % k for k in range(10)]}
REQUIRED.update({n: (REAL, 1) for n in ["x0", "x1", "x2", "x0_ng", "x1_ng", "x2_ng", "rho_1d", "u_1d", "P_1d"]})
REQUIRED.update({n: (INT, 0) for n in ["output_id", "iter_output_id", "time_output_id", "iter"]})
REQUIRED.update({"current_time": (REAL, 0), "gamma": (REAL, 0), "fx_1d": (REAL, 2)})


class SpecError(Exception):
    pass


def config_text(repo, work):
    src = None
    for d, _, fs in os.walk(os.path.join(repo, "src")):
        for f in sorted(fs):
            p = os.path.join(d, f)
            if f.endswith((".cpp", ".cc", ".cxx")) and re.search(r"\bio_config\b\s*(=|\{|\()", open(p).read()):
                src = p
    if src is None:
        raise SpecError("no definition of io_config")
    exe = os.path.join(work, "pdi_config.%d" % os.getpid())
    code = '#include "%s"\n#include <cstdio>\nint main() { std::fputs(io_config, stdout); }\n' % src
    p = subprocess.run(["clang++-18", "-std=c++20", "-w", "-x", "c++", "-", "-o", exe], input=code, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise SpecError("the specification tree does not compile:\n" + p.stdout[-2000:])
    try:
        return subprocess.run([exe], stdout=subprocess.PIPE, text=True, check=True, timeout=60).stdout
    finally:
        os.unlink(exe)


class Gen:
    def __init__(self, y):
        self.meta, self.data, self.files = {}, {}, []
        for n, t in (y.get("metadata") or {}).items():
            self.meta[n] = self.type(t)
        for n, t in (y.get("data") or {}).items():
            self.data[n] = self.type(t)
        pl = y.get("plugins") or {}
        for k in pl:
            if k not in ("mpi", "decl_hdf5"):
                raise SpecError("plugin %s is not under contract" % k)
        fs = pl.get("decl_hdf5") or []
        self.files = fs if isinstance(fs, list) else [fs]
        self.sets = {}  # rank of each dataset of the files

    def type(self, t):
        if isinstance(t, str):
            if t not in ("int", "double", "char", "MPI_Comm"):
                raise SpecError("type %s" % t)
            return (t, None)
        if t.get("type") != "array":
            return self.type(t["type"])
        s = t["size"]
        sub = t["subtype"]
        return (sub if isinstance(sub, str) else self.type(sub)[0], [str(x) for x in (s if isinstance(s, list) else [s])])

    def expr(self, s, used):
        """an expression of PDI, over the metadata"""
        def var(m):
            n, i = m.group(1) or m.group(3), m.group(2) or m.group(4)
            if n not in self.meta:
                raise SpecError("%s is used in an expression and is not metadata" % n)
            used.add(n)
            if self.meta[n][0] not in (INT, REAL):
                raise SpecError("%s is not a number" % n)
            return "m_%s%s" % (n, "[%s]" % (i if i.isdigit() else "m_" + i.strip("$")) if i is not None else "")
        r = re.sub(r"\$\{(\w+)(?:\[([\w$]+)\])?\}|\$(\w+)(?:\[([\w$]+)\])?", var, str(s))
        if re.search(r"[^\w\s+\-*/%()<>=!&|.\[\]]", r) or "$" in r:
            raise SpecError("expression %s" % s)
        r = re.sub(r"(?<![<>=!])=(?!=)", "==", r)
        r = re.sub(r"(?<!&)&(?!&)", "&&", re.sub(r"(?<!\|)\|(?!\|)", "||", r))
        return r

    def dims(self, s, used):
        s = s if isinstance(s, list) else [s]
        return "Dims {%d, {%s}}" % (len(s), ", ".join("static_cast<long>(%s)" % self.expr(x, used) for x in s)), len(s)

    def known(self, used, out, what, ind):
        for n in sorted(used):
            out.append('%svc_assert("PDI: the metadata an event uses has been given: %s, %s", k_%s);' % (ind, n, what, n))

    def transfer(self, ev, name, d, write, decl, out):
        d = d or {}
        for k in d:
            if k not in ("dataset", "when", "memory_selection", "dataset_selection", "attributes", "communicator"):
                raise SpecError("%s of %s" % (k, name))
        ds = str(d.get("dataset", name))
        used = set()
        ind = "    "
        cond = None
        if "when" in d:
            cond = self.expr(d["when"], used)
            self.known(used, out, "condition of " + name, ind)
            out.append("%sif (%s) {" % (ind, cond))
            ind += "    "
        names = {ds}
        sel = None
        m = re.fullmatch(r"(\w*)\$\{?(\w+)\}?", ds)
        if m:
            # one dataset for each value of a metadata
            sel = m.group(2)
            self.known({sel}, out, "dataset of " + name, ind)
            cands = [x for x in self.all_sets if re.fullmatch(re.escape(m.group(1)) + r"\d+", x)]
            if not cands:
                raise SpecError("no dataset %s is declared" % ds)
            for k, x in enumerate(sorted(cands, key=lambda x: int(x[len(m.group(1)):]))):
                v = int(x[len(m.group(1)):])
                out.append("%s%sif (m_%s == %d) {" % (ind, "else " if k else "", sel, v))
                self.one(ev, name, x, d, write, decl, out, ind + "    ")
                out.append(ind + "}")
            out.append('%selse vc_assert("PDI: the dataset of %s is one of the declared ones", false);' % (ind, name))
        elif re.fullmatch(r"\w+", ds):
            self.one(ev, name, ds, d, write, decl, out, ind)
        else:
            raise SpecError("dataset %s" % ds)
        if cond is not None:
            out.append("    }")

    def one(self, ev, name, ds, d, write, decl, out, ind):
        used = set()
        if name in self.meta:
            t, shape = self.meta[name]
            if shape is not None or d.get("memory_selection") or d.get("dataset_selection"):
                raise SpecError("array of metadata %s in a file" % name)
            if self.sets.setdefault(ds, (t, 0)) != (t, 0):
                raise SpecError("dataset %s has two types" % ds)
            if write:
                self.known({name}, out, "value written", ind)
                out.append("%sf_%s = m_%s; w_%s = true;" % (ind, ds, name, ds))
            else:
                out.append('%svc_assert("PDI: %s is given for reading when it is read", w_%s_dir == 1 || w_%s_dir == 3);' % (ind, name, name, name))
                out.append("%sm_%s = f_%s; k_%s = true; if (p_%s != nullptr) *static_cast<%s*>(p_%s) = f_%s;" % (ind, name, ds, name, name, t, name, ds))
            return
        if name not in self.data:
            raise SpecError("%s is neither data nor metadata" % name)
        t, shape = self.data[name]
        if t != REAL or shape is None:
            raise SpecError("data %s of type %s" % (name, t))
        mshape, mrank = self.dims(shape, used)
        ms = d.get("memory_selection") or {}
        msize, r1 = self.dims(ms.get("size", shape), used)
        mstart, r2 = self.dims(ms.get("start", [0] * mrank), used)
        if mrank != r1 or mrank != r2:
            raise SpecError("rank of the selection of %s" % name)
        fshape = None
        if ds in decl:
            t2, s2 = self.type(decl[ds])
            if t2 != REAL:
                raise SpecError("dataset %s of type %s" % (ds, t2))
            fshape, frank = self.dims(s2, used)
        fs = d.get("dataset_selection") or {}
        size = fs.get("size")
        if fshape is None:
            if size is None:
                frank = mrank
            else:
                frank = len(size) if isinstance(size, list) else 1
        if self.sets.setdefault(ds, (REAL, frank)) != (REAL, frank):
            raise SpecError("dataset %s has two ranks" % ds)
        fsize = fstart = None
        if size is not None:
            fsize, r3 = self.dims(size, used)
            fstart, r4 = self.dims(fs.get("start", [0] * frank), used)
            if r3 != frank or r4 != frank:
                raise SpecError("rank of the selection of dataset %s" % ds)
        self.known(used, out, "selection of " + name, ind)
        out.append('%svc_assert("PDI: %s is shared when the event uses it, for this use", d_%s != nullptr && (dir_%s == %d || dir_%s == 3));' % (ind, name, name, name, 2 if write else 1, name))
        out.append("%sif (d_%s != nullptr) {" % (ind, name))
        out.append("%s    Dims const mshape = %s, msize = %s, mstart = %s;" % (ind, mshape, msize, mstart))
        out.append("%s    Dims const fshape = %s;" % (ind, fshape if fshape else ("msize" if write else "shape_of<%d>(f_%s)" % (frank, ds))))
        out.append("%s    Dims const fsize = %s, fstart = %s;" % (ind, fsize or "fshape", fstart or ("Dims {%d, {}}" % frank)))
        out.append('%s    transfer<%d, %d>("%s", "%s", d_%s, mshape, msize, mstart, f_%s, fshape, fsize, fstart, %s);' % (ind, mrank, frank, name, ds, name, ds, "true" if write else "false"))
        if write:
            out.append("%s    w_%s = true;" % (ind, ds))
        out.append(ind + "}")

    def run(self):
        self.all_sets = set()
        for f in self.files:
            self.all_sets |= set((f.get("datasets") or {}).keys())
        decl = {}
        for f in self.files:
            decl.update(f.get("datasets") or {})
        bodies, events = [], {}
        for k, f in enumerate(self.files):
            for x in f:
                if x not in ("file", "on_event", "collision_policy", "when", "datasets", "write", "read", "communicator"):
                    raise SpecError("%s of a file" % x)
            out = []
            used = set()
            ind = "    "
            if f.get("write") is not None:
                out.append('    vcyaml::writing("%s");' % f.get("collision_policy", "skip_and_warn"))
            if "when" in f:
                c = self.expr(f["when"], used)
                self.known(used, out, "condition of the file", ind)
                out.append("    if (!(%s)) return;" % c)
            for n in re.findall(r"\$\{?(\w+)\}?", str(f["file"])):
                if n not in self.meta:
                    raise SpecError("name of the file %s" % f["file"])
                self.known({n}, out, "name of the file", ind)
            collective = "communicator" in f
            if collective:
                n = str(f["communicator"]).strip("${}")
                if self.meta.get(n, (None,))[0] != "MPI_Comm":
                    raise SpecError("communicator " + str(f["communicator"]))
                self.known({n}, out, "communicator", ind)
            writing = f.get("write") is not None
            base = re.sub(r"\W+", "_", str(f["file"])).strip("_")
            out.append('    vcyaml::opened("%s", %s, %s);' % (base, "true" if writing else "false", "m_" + n if collective else "0"))
            for w in ("write", "read"):
                s = f.get(w)
                if s is None:
                    continue
                if isinstance(s, str):
                    s = [s]
                if isinstance(s, list):
                    s = {x: None for x in s}
                for name, ds in s.items():
                    for d in (ds if isinstance(ds, list) else [ds]):
                        if isinstance(d, str):
                            d = {"dataset": d}
                        own = f.get("datasets") or {}
                        self.transfer(f["on_event"], name, d, w == "write", own, out)
            bodies.append("inline void file%d()\n{\n%s\n}\n" % (k, "\n".join(out)))
            ev = f["on_event"]
            for e in ev if isinstance(ev, list) else [ev]:
                events.setdefault(e, []).append(k)
        for n, t in REQUIRED.items():
            self.sets.setdefault(n, t)
        o = ["// generated on every run from the specification tree of PDI in the repository", "#pragma once", "#include <pdi_transfer.hpp>", "namespace vcyaml {"]
        for n, (t, s) in self.meta.items():
            o.append("inline bool k_%s = false; inline int w_%s_dir = 0; inline void* p_%s = nullptr;" % (n, n, n))
            if t == "char":
                continue
            ty = "double" if t == REAL else "long"
            if s is None:
                o.append("inline %s m_%s = 0;" % (ty, n))
            else:
                if not (len(s) == 1 and s[0].isdigit()):
                    raise SpecError("size of metadata " + n)
                o.append("inline %s m_%s[%s] = {};" % (ty, n, s[0]))
        for n in self.data:
            o.append("inline void* d_%s = nullptr; inline int dir_%s = 0;" % (n, n))
        for ds, (t, r) in sorted(self.sets.items()):
            ty = {INT: "int", REAL: "double"}[t] if r == 0 else "hclpp::KV_double_%dd" % r
            o.append("inline bool w_%s = false;" % ds)
            if r == 0:
                o.append("inline %s f_%s = 0;" % (ty, ds))
            else:
                o.append("inline %s f_%s;" % (ty, ds))
        o.append("inline void reset()\n{")
        for n, (t, s) in self.meta.items():
            o.append("    k_%s = false; w_%s_dir = 0; p_%s = nullptr;" % (n, n, n))
        for n in self.data:
            o.append("    d_%s = nullptr; dir_%s = 0;" % (n, n))
        for ds in self.sets:
            o.append("    w_%s = false;" % ds)
        o.append("    writings = 0;")
        o.append("}")
        o.append("inline void share(char const* name, void const* data, int dir)\n{")
        for n, (t, s) in self.meta.items():
            o.append('    if (vcpdi::same(name, "%s")) {' % n)
            o.append("        p_%s = const_cast<void*>(data); w_%s_dir = dir;" % (n, n))
            if t == "char":
                u = set()
                self.expr(s[0], u)
                self.known(u, o, "size of " + n, "        ")
                o.append("        k_%s = dir == 2 || dir == 3;" % n)
            else:
                cty = {"int": "int", "double": "double", "MPI_Comm": "MPI_Comm"}[t]
                if s is None:
                    o.append("        if (dir == 2 || dir == 3) { m_%s = *static_cast<%s const*>(data); k_%s = true; }" % (n, cty, n))
                else:
                    o.append("        if (dir == 2 || dir == 3) { for (int d = 0; d < %s; ++d) m_%s[d] = static_cast<%s const*>(data)[d]; k_%s = true; }" % (s[0], n, cty, n))
            o.append("        return;\n    }")
        for n in self.data:
            o.append('    if (vcpdi::same(name, "%s")) { d_%s = const_cast<void*>(data); dir_%s = dir; return; }' % (n, n, n))
        o.append("}")
        o += bodies
        o.append("inline bool is_event(char const* e) { return %s; }" % " || ".join(["false"] + ['vcpdi::same(e, "%s")' % e for e in events]))
        o.append("inline void event(char const* e)\n{")
        for e, ks in events.items():
            o.append('    if (vcpdi::same(e, "%s")) { %s }' % (e, " ".join("file%d();" % k for k in ks)))
        # reclaim: the data of the event, the pointers of the metadata
        for n in self.data:
            o.append("    d_%s = nullptr; dir_%s = 0;" % (n, n))
        for n in self.meta:
            if self.meta[n][0] != "char":
                o.append("    p_%s = nullptr; w_%s_dir = 0;" % (n, n))
        o.append("}")
        o.append("} // namespace vcyaml")
        return "\n".join(o) + "\n"


def write_header(repo, work):
    """the header, next to the ones of the configuration"""
    d = os.path.join(work, "pdi")
    os.makedirs(d, exist_ok=True)
    s = header(repo, work)
    p = os.path.join(d, "pdi_spec.hpp")
    if not os.path.exists(p) or open(p).read() != s:
        t = p + ".%d" % os.getpid()
        open(t, "w").write(s)
        os.replace(t, p)
    return d


def header(repo, work):
    y = yaml.safe_load(config_text(repo, work))
    return Gen(y).run()


if __name__ == "__main__":
    import sys

    print(header(sys.argv[1] if len(sys.argv) > 1 else "/repo", "/tmp"))
