"""Contract-level symbolic execution (VC generation) of LLVM IR compiled from the real code.

Every path is merged at post-dominators; data-parallel kernels and independent counted loops are summarised for ALL
iterations (quantified stores), other loops need a concrete trip count or a loop contract supplied by the harness.
"""
from fractions import Fraction as Fr
import time

import llvmir
from llvmir import Const, Local, CFG
from terms import *
import terms as TM


def isnan_const(t):
    return t.op == "rv" and t.args[0] == "NaN"


class Unsupported(Exception):
    pass


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __repr__(self):
        return "Ptr(%s,%s)" % (self.obj, self.off)


class VPtr:
    __slots__ = ("sid", "idx", "raw")

    def __init__(self, sid, idx, raw=False):
        self.sid, self.idx, self.raw = sid, idx, raw  # raw: made by pointer arithmetic, bounds checked when used

    def __repr__(self):
        return "VPtr(%s,%s)" % (self.sid, self.idx)


class FPtr:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "&" + self.name


class IPtr:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()
NULL = Ptr(0, ic(0))


def iexact(t, k):
    """t / k for a linear term with multiples of k"""
    r = ic(t.args[0] // k)
    for a, c in t.args[1]:
        r = iadd(r, iscale(TM.iatom(a), c // k))
    return r


def same(a, b):
    if a is b:
        return True
    if isinstance(a, T) or isinstance(b, T):
        return False
    if type(a) is not type(b):
        return False
    if isinstance(a, Ptr):
        return a.obj == b.obj and a.off is b.off
    if isinstance(a, VPtr):
        return a.sid == b.sid and len(a.idx) == len(b.idx) and all(x is y for x, y in zip(a.idx, b.idx))
    if isinstance(a, FPtr):
        return a.name == b.name
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False


def vite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if same(a, b):
        return a
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if isinstance(a, T) and isinstance(b, T):
        if a.sort != b.sort:
            if a.sort == "B":
                a = iite(a, ic(1), ic(0))
            if b.sort == "B":
                b = iite(b, ic(1), ic(0))
            if a.sort == "R" and b.sort == "I" and icval(b) == 0:
                b = ZERO
            if b.sort == "R" and a.sort == "I" and icval(a) == 0:
                a = ZERO
            if a.sort != b.sort:
                raise Unsupported("merge of %s and %s" % (a.sort, b.sort))
        return ite(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return tuple(vite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, VPtr) and isinstance(b, VPtr) and a.sid == b.sid:
        return VPtr(a.sid, tuple(iite(c, x, y) for x, y in zip(a.idx, b.idx)), a.raw or b.raw)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
        return Ptr(a.obj, iite(c, a.off, b.off))
    if isinstance(a, T) or isinstance(b, T):
        raise Unsupported("merge of pointer and scalar")
    return IPtr(c, a, b)


class Chain:
    """immutable linked list of stores of one storage"""
    __slots__ = ("parent", "e", "depth", "memo")

    def __init__(self, parent, e):
        self.parent, self.e = parent, e
        self.depth = 0 if parent is None else parent.depth + 1
        self.memo = {}


class Storage:
    def __init__(self, sid, name, rank, ext, sort, base):
        self.sid, self.name, self.rank, self.ext, self.sort, self.base = sid, name, rank, ext, sort, base
        self.props = []


class View:
    def __init__(self, sid, rank, dims):
        self.sid, self.rank, self.dims = sid, rank, dims  # dims: per storage dim ('a',k,off) or ('f',term); extents per arg dim
        self.ext = None


class State:
    __slots__ = ("mem", "ch", "pc", "views", "depth")

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.ch = dict(self.ch)
        s.pc = self.pc
        s.depth = self.depth
        return s


class Obligation:
    __slots__ = ("name", "pc", "goal", "kind", "info")

    def __init__(self, name, pc, goal, kind, info=None):
        self.name, self.pc, self.goal, self.kind, self.info = name, pc, goal, kind, info


SIGN = {8: 8, 16: 16, 32: 32, 64: 64}


class Engine:
    def __init__(self, mods, opts=None):
        self.mods = mods if isinstance(mods, list) else [mods]
        self.opts = {"bounds": True, "race": True, "div": True, "exact_ints": False, "max_steps": 3000000}
        self.opts.update(opts or {})
        self.objn = 1
        self.globs = {}
        self.objname = {}
        self.objsize = {}
        self.storages = {}
        self.viewtab = {}
        self.nview = 0
        self.nsto = 0
        self.obls = []
        self.facts = {}  # atom term -> list of fact Bool terms
        self.facted = set()
        self.inputs = {}  # name -> (kind, term, lo, hi)
        self.havoc = {}
        self.steps = 0
        self.solver_time = 0.0
        self.nq = 0
        self.dcache = {}
        self.klog = None
        self.logs = []
        self.covers = []
        self.loop_contracts = []
        self.fun_contracts = []
        self.funcs_by_contract = set()
        self.loop_contract_used = []
        self.reduces = {}
        self.funcs_seen = set()
        self.assumed = []
        self.callstack = []
        self.ghost = {}
        self.exc_types = {}
        self.monos = {}
        self.loop_summaries = 0
        self.kernels = []
        import z3

        self.z3 = z3
        self.zc = {}
        self.zfacts_done = set()
        self.isol = None
        self.names = {}
        self.focus = []
        self.exts = []
        self.ro = {}
        self.ufc = {}
        self.strs = {}
        self.reds = []
        self.sums = {}
        self.sumlinks = []
        self.sum_alias = {}
        self.nred = 0
        self.nscan = 0
        self.scans = {}
        self.scan_seen = {}
        self.caught = []
        self.ostr = {}
        self.ostr_by_name = {}
        self.strlen_ = {}
        self.nan_memo = {}
        self.strparts = {}
        self.strprefixes = {}
        self.strlit_text = {}
        self.strlits = {}
        self.in_kernel = False
        self.scope = []
        self.overlaps = []
        self.allsum_seen = []
        self.allowed_unknown = set()
        self.STDEXC = dict(Engine.STDEXC)
        self.loop_poison = {}
        self.auto_ok = 0
        self.mpi = {}

    # ------------------------------------------------------------ modules
    def func(self, name):
        for m in self.mods:
            f = m.func(name)
            if f is not None and not f.decl:
                return f
        return None

    def ginit(self, name):
        r = (None, None, False)
        for m in self.mods:
            x = m.ginit(name)
            if x[0] is not None:
                return x + (m,)
            if x[1] is not None:
                r = x
        return r + (None,)

    def gobj(self, name, st):
        o = self.globs.get(name)
        if o is None:
            o = self.newobj("@" + name)
            self.globs[name] = o
            ini, ty, cst, m = self.ginit(name)
            cells = {}
            if ini is not None:
                self.put_const(cells, 0, ini, st)
            self.objsize[o] = ty.size if ty else 8
            self.ginitmem[o] = cells
        return o

    def put_const(self, cells, off, c, st):
        t = c.ty
        if c.kind == "agg":
            if t.kind == "struct":
                for o, e in zip(t.offs, c.v):
                    self.put_const(cells, off + o, e, st)
            else:
                for i, e in enumerate(c.v):
                    self.put_const(cells, off + i * t.elem.size, e, st)
        elif c.kind == "zero":
            self.put_zero(cells, off, t)
        elif c.kind in ("undef",):
            pass
        else:
            cells[off] = (max(t.size, 1), self.constval(c, st))

    def put_zero(self, cells, off, t):
        if t.kind == "struct":
            for o, f in zip(t.offs, t.fields):
                self.put_zero(cells, off + o, f)
        elif t.kind in ("array", "vector"):
            for i in range(t.n):
                self.put_zero(cells, off + i * t.elem.size, t.elem)
        else:
            cells[off] = (max(t.size, 1), self.zero(t))

    def zero(self, t):
        if t.kind == "int":
            return FALSE if t.bits == 1 else ic(0)
        if t.kind == "float":
            return ZERO
        if t.kind == "ptr":
            return NULL
        if t.kind == "struct":
            return tuple(self.zero(f) for f in t.fields)
        if t.kind in ("array", "vector"):
            return tuple(self.zero(t.elem) for _ in range(t.n))
        raise Unsupported("zero of " + t.kind)

    def newobj(self, name, size=None):
        o = self.objn
        self.objn += 1
        self.objname[o] = name
        self.objsize[o] = size
        return o

    # ------------------------------------------------------------ values
    def constval(self, c, st):
        k = c.kind
        if k == "int":
            if c.ty.bits == 1:
                return bc(c.v != 0)
            return ic(c.v)
        if k == "float":
            return rdouble(c.v)
        if k == "null":
            return NULL
        if k == "undef":
            t = c.ty
            if t.kind == "struct":
                return tuple(UNDEF for f in t.fields)
            if t.kind in ("array", "vector"):
                return tuple(UNDEF for _ in range(t.n))
            return UNDEF
        if k == "zero":
            return self.zero(c.ty)
        if k == "func":
            return FPtr(c.v)
        if k == "global":
            return Ptr(self.gobj(c.v, st), ic(0))
        if k == "agg":
            return tuple(self.constval(e, st) for e in c.v)
        if k == "gep":
            sty, ops = c.v
            vals = [self.constval(o, st) for o in ops]
            return self.gep(sty, vals[0], vals[1:])
        if k == "cexpr":
            op, ops, pred = c.v
            vals = [self.constval(o, st) for o in ops]
            if op in ("bitcast", "addrspacecast", "inttoptr", "ptrtoint"):
                return vals[0]
            if op == "icmp":
                return self.icmp(pred, vals[0], vals[1], 64, st)
            if op in ("add", "sub") and all(isinstance(v, T) for v in vals):
                return iadd(*vals) if op == "add" else isub(*vals)
            raise Unsupported("constant expr " + str(op))
        if k == "meta":
            return UNDEF
        raise Unsupported("constant " + k)

    def val(self, v, regs, st):
        if isinstance(v, Local):
            return regs[v.id]
        return self.constval(v, st)

    def gep(self, ty, base, idx):
        if isinstance(base, IPtr):
            return vite(base.c, self.gep(ty, base.a, idx), self.gep(ty, base.b, idx))
        off = ic(0)
        t = ty
        for n, i in enumerate(idx):
            if i is UNDEF:
                raise Unsupported("undef gep index")
            if n == 0:
                off = iadd(off, iscale(i, t.size))
            elif t.kind == "struct":
                k = icval(i)
                off = iadd(off, ic(t.offs[k]))
                t = t.fields[k]
            else:
                t = t.elem
                off = iadd(off, iscale(i, t.size))
        if isinstance(base, Ptr):
            return Ptr(base.obj, iadd(base.off, off))
        if icval(off) == 0:
            return base
        if isinstance(base, VPtr):
            # raw element arithmetic inside an innermost (first, LayoutLeft) dimension
            o = off
            if all(c % 8 == 0 for _, c in o.args[1]) and o.args[0] % 8 == 0 and len(base.idx) == 1 and self.storages[base.sid].sort == "R":
                return VPtr(base.sid, (iadd(base.idx[0], iexact(o, 8)),), True)
        raise Unsupported("gep on %r" % (base,))

    # ------------------------------------------------------------ int solver
    def z(self, t):
        """translate to z3 (memoised)"""
        zc = self.zc
        r = zc.get(t)
        if r is not None:
            return r
        z3 = self.z3
        st = [t]
        while st:
            x = st[-1]
            if x in zc:
                st.pop()
                continue
            todo = [c for c in children(x) if c not in zc]
            if todo:
                st.extend(todo)
                continue
            zc[x] = self._z1(x)
            st.pop()
        return zc[t]

    def _z1(self, x):
        z3 = self.z3
        zc = self.zc
        op = x.op
        a = [zc[c] for c in children(x)]
        if op == "lin":
            ts = []
            for (at, k), za in zip(x.args[1], a):
                ts.append(za if k == 1 else k * za)
            if x.args[0] or not ts:
                ts.append(z3.IntVal(x.args[0]))
            return ts[0] if len(ts) == 1 else z3.Sum(ts)
        if op == "iv":
            return z3.Int(x.args[0])
        if op == "rv":
            return z3.Real(x.args[0])
        if op == "bv":
            return z3.Bool(x.args[0])
        if op == "bc":
            return z3.BoolVal(x.args[0])
        if op == "rc":
            return z3.RealVal(str(x.args[0]))
        if op == "imul":
            r = a[0]
            for y in a[1:]:
                r = r * y
            return r
        if op == "idiv":
            p, q = a
            return z3.If(z3.Or(p >= 0, p % q == 0), p / q, z3.If(q > 0, p / q + 1, p / q - 1))
        if op == "imod":
            p, q = a
            d = z3.If(z3.Or(p >= 0, p % q == 0), p / q, z3.If(q > 0, p / q + 1, p / q - 1))
            return p - q * d
        if op == "emod":
            return a[0] % x.args[1]
        if op in ("iite", "rite"):
            return z3.If(*a)
        if op == "not":
            return z3.Not(a[0])
        if op == "and":
            return z3.And(*a)
        if op == "or":
            return z3.Or(*a)
        if op == "le0":
            return a[0] <= 0
        if op == "eq0":
            return a[0] == 0
        if op == "radd":
            return a[0] + a[1]
        if op == "rmul":
            return a[0] * a[1]
        if op == "rdiv":
            return a[0] / a[1]
        if op == "rle":
            return a[0] <= a[1]
        if op == "req":
            return a[0] == a[1]
        if op == "i2r":
            return z3.ToReal(a[0])
        if op == "r2i":
            # C truncation
            return z3.If(a[0] >= 0, z3.ToInt(a[0]), -z3.ToInt(-a[0]))
        if op == "app":
            srt = {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort()}
            f = z3.Function(x.args[0] + "/" + "".join(c.sort for c in x.args[1:]), *([srt[c.sort] for c in x.args[1:]] + [srt[x.sort]]))
            return f(*a) if a else z3.Const(x.args[0], srt[x.sort])
        raise Unsupported("z3 of " + op)

    def int_pc(self, pc):
        out = []
        for c in pc:
            if is_int_only(c):
                out.append(c)
            elif c.op == "and":
                out.extend(x for x in c.args if is_int_only(x))
        return out

    def decide(self, st, c):
        """True/False if the pure-int condition c is decided by the path condition, else None"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if not is_int_only(c):
            ps = set(st.pc)
            if c in ps:
                return True
            if bnot(c) in ps:
                return False
            return None
        ips = frozenset(self.int_pc(st.pc))
        if c in ips:
            return True
        n = bnot(c)
        if n in ips:
            return False
        key = (ips, c)
        r = self.dcache.get(key, 0)
        if r != 0:
            return r
        if self.implied(ips, c):
            r = True
        elif self.implied(ips, n):
            r = False
        else:
            r = None
        self.dcache[key] = r
        self.dcache[(ips, n)] = None if r is None else not r
        return r

    def implied(self, ips, c):
        t0 = time.time()
        z3 = self.z3
        self.nq += 1
        s = self.isol
        if s is None:
            s = self.isol = z3.SimpleSolver()
            s.set("timeout", 2000)
        s.push()
        # slice: only hypotheses connected to c
        rel = self.slice(ips, c)
        fs = []
        for t in [c] + rel:
            fs.extend(self.facts_for(t, int_only=True))
        for p in rel:
            s.add(self.z(p))
        for f in set(fs):
            s.add(self.z(f))
        s.add(self.z(bnot(c)))
        r = s.check()
        s.pop()
        self.solver_time += time.time() - t0
        return r == z3.unsat

    _vcache = {}

    def vars_of(self, t):
        r = self._vcache.get(t)
        if r is None:
            r = frozenset(a for a in atoms(t) if a.op in ("iv", "rv", "bv", "app"))
            self._vcache[t] = r
        return r

    def slice(self, hyps, c):
        if c is FALSE:
            return list(hyps)
        vs = set(self.vars_of(c))
        for f in self.facts_for(c, int_only=True):
            vs |= self.vars_of(f)
        todo = list(hyps)
        out = []
        ch = True
        while ch:
            ch = False
            rest = []
            for h in todo:
                v = self.vars_of(h)
                if not v or (v & vs):
                    out.append(h)
                    if not v <= vs:
                        vs |= v
                        ch = True
                else:
                    rest.append(h)
            todo = rest
        return out

    def facts_for(self, t, int_only=False):
        out = []
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            for a in self.vars_of(x):
                if a in seen:
                    continue
                seen.add(a)
                for f in self.facts.get(a, ()):
                    if int_only and not is_int_only(f):
                        continue
                    out.append(f)
                    st.append(f)
        return out

    def fact(self, a, f):
        if f is TRUE:
            return
        for v in self.vars_of(a) if a.op == "lin" else (a,):
            l = self.facts.setdefault(v, [])
            if f not in l:
                l.append(f)

    # ------------------------------------------------------------ memory
    def mem(self, st, o):
        d = st.mem.get(o)
        if d is None:
            d = self.ginitmem.get(o)
            if d is None:
                d = {}
            st.mem[o] = d
        return d

    def load(self, st, p, t):
        if isinstance(p, IPtr):
            d = self.decide(st, p.c)
            if d is True:
                return self.load(st, p.a, t)
            if d is False:
                return self.load(st, p.b, t)
            # dereference of a null branch is dead code under its guard
            if isinstance(p.a, Ptr) and p.a.obj == 0:
                return self.load(st, p.b, t)
            if isinstance(p.b, Ptr) and p.b.obj == 0:
                return self.load(st, p.a, t)
            return vite(p.c, self.load(st, p.a, t), self.load(st, p.b, t))
        if isinstance(p, VPtr):
            return self.vload(st, p, t)
        if isinstance(p, Ptr):
            if t.kind == "struct":
                return tuple(self.load(st, Ptr(p.obj, iadd(p.off, ic(o))), f) for o, f in zip(t.offs, t.fields))
            if t.kind in ("array", "vector"):
                return tuple(self.load(st, Ptr(p.obj, iadd(p.off, ic(i * t.elem.size))), t.elem) for i in range(t.n))
            if p.obj == 0:
                raise Unsupported("load through null")
            off = icval(p.off)
            if off is not None:
                return self.mload(st, p.obj, off, t)
            # symbolic offset
            sp = self.split_ite(p.off)
            if sp:
                c, a, b = sp
                return vite(c, self.load(st, Ptr(p.obj, a), t), self.load(st, Ptr(p.obj, b), t))
            offs = self.cand_offsets(st, p, t)
            r = None
            for o in offs[::-1]:
                v = self.mload(st, p.obj, o, t)
                r = v if r is None else vite(ieq(p.off, ic(o)), v, r)
            return r
        raise Unsupported("load through %r" % (p,))

    def split_ite(self, l):
        for a, k in l.args[1]:
            if a.op == "iite":
                c = a.args[0]
                rest = isub(l, iscale(iatom(a), k))
                return c, iadd(rest, iscale(a.args[1], k)), iadd(rest, iscale(a.args[2], k))
        return None

    def cand_offsets(self, st, p, t):
        m = self.mem(st, p.obj)
        g = 0
        for a, k in p.off.args[1]:
            g = TM.math.gcd(g, abs(k))
        base = p.off.args[0] % g
        offs = [o for o, (sz, v) in sorted(m.items()) if o % g == base and sz == t.size]
        offs = [o for o in offs if self.decide(st, ieq(p.off, ic(o))) is not False]
        if not offs or len(offs) > 64:
            raise Unsupported("symbolic offset into %s (%d candidates)" % (self.objname.get(p.obj), len(offs)))
        if self.opts["bounds"]:
            g = bor(*[ieq(p.off, ic(o)) for o in offs])
            if self.decide(st, g) is not True:
                self.oblige("in-bounds access of local array", st, g, "bounds")
        return offs

    def mload(self, st, o, off, t):
        m = self.mem(st, o)
        c = m.get(off)
        sz = t.size
        if c is not None and c[0] == sz:
            v = c[1]
            return self.retype(v, t)
        if c is not None and c[0] > sz and isinstance(c[1], T) and icval(c[1]) is not None:
            n = icval(c[1]) & ((1 << (8 * c[0])) - 1)
            n &= (1 << (8 * sz)) - 1
            return self.retype(self.sgn(n, 8 * sz), t)
        # half of a 64-bit cell holding a small value
        if t.kind == "int" and sz == 4:
            w = c if c is not None and c[0] == 8 else None
            h = m.get(off - 4)
            h = h if c is None and h is not None and h[0] == 8 else None
            for q, hi in ((w, False), (h, True)):
                if q is not None and isinstance(q[1], T) and q[1].sort == "I":
                    if self.decide(st, band(ile(ic(0), q[1]), ile(q[1], ic((1 << 31) - 1)))) is True:
                        return ic(0) if hi else q[1]
        # assemble from bytes
        bs = []
        for i in range(sz):
            b = self.byte(m, off + i)
            if b is None:
                bs = None
                break
            bs.append(b)
        if bs is not None:
            n = int.from_bytes(bytes(bs), "little")
            return self.retype(self.sgn(n, 8 * sz), t)
        # a wide load covering several whole cells: keep the parts side by side
        if t.kind == "int" and sz > 1:
            parts, k = [], 0
            while k < sz:
                d = m.get(off + k)
                if d is None:
                    # an undefined hole
                    n = 1
                    while k + n < sz and (off + k + n) not in m:
                        n += 1
                    if any(off + k - j in m and m[off + k - j][0] > j for j in range(1, 8)):
                        parts = None
                        break
                    parts.append((k, n, UNDEF))
                    k += n
                    continue
                if k + d[0] > sz:
                    parts = None
                    break
                parts.append((k, d[0], d[1]))
                k += d[0]
            if parts and any(x[2] is not UNDEF for x in parts):
                if len(parts) == 2 and parts[1][2] is UNDEF and parts[0][1] == sz:
                    return parts[0][2]
                return ("pk", tuple(parts))
        if c is None and any(off - k in m and m[off - k][0] > k for k in range(1, 8)):
            raise Unsupported("partial load of %s+%d (%s)" % (self.objname.get(o), off, str([(k, v) for k, v in sorted(m.items()) if abs(k - off) < 9])[:300]))
        return UNDEF

    def sgn(self, n, bits):
        if n >= 1 << (bits - 1):
            n -= 1 << bits
        return ic(n)

    def byte(self, m, off):
        for k in range(0, 16):
            c = m.get(off - k)
            if c is not None:
                if c[0] > k and isinstance(c[1], T) and c[1].sort == "I" and icval(c[1]) is not None:
                    return (icval(c[1]) >> (8 * k)) & 255
                if c[0] > k and isinstance(c[1], Ptr) and c[1].obj == 0 and icval(c[1].off) == 0:
                    return 0
                if c[0] > k and isinstance(c[1], T) and c[1].op == "rc" and c[1].args[0] == 0:
                    return 0
                if c[0] > k and c[1] is FALSE:
                    return 0
                return None
        return None

    def retype(self, v, t):
        if v is UNDEF:
            return v
        if t.kind == "int":
            if isinstance(v, T):
                if t.bits == 1:
                    return v if v.sort == "B" else bnot(ieq(v, ic(0)))
                if v.sort == "B":
                    return iite(v, ic(1), ic(0))
                if v.sort == "R":
                    if v is ZERO:
                        return ic(0)
                    return v  # bit copy of a double through an integer register
                return v
            if isinstance(v, Ptr) and v.obj == 0:
                return v.off
            return v
        if t.kind == "float":
            if isinstance(v, T) and v.sort == "I":
                n = icval(v)
                if n == 0:
                    return ZERO
                if n is not None:
                    import struct

                    return rdouble(struct.unpack("<d", struct.pack("<q", n))[0])
            return v
        if t.kind == "ptr":
            if isinstance(v, T):
                n = icval(v) if v.sort == "I" else None
                if n is not None:
                    return Ptr(0, ic(n))
            return v
        return v

    def store(self, st, p, v, t, guard=TRUE):
        if isinstance(p, IPtr):
            d = self.decide(st, p.c)
            if d is not False:
                self.store(st, p.a, v, t, band(guard, p.c) if d is None else guard)
            if d is not True:
                self.store(st, p.b, v, t, band(guard, bnot(p.c)) if d is None else guard)
            return
        if isinstance(v, tuple) and t.kind in ("struct", "array", "vector"):
            for i, e in enumerate(v):
                o = t.offs[i] if t.kind == "struct" else i * t.elem.size
                ft = t.fields[i] if t.kind == "struct" else t.elem
                self.store(st, Ptr(p.obj, iadd(p.off, ic(o))), e, ft, guard)
            return
        if isinstance(p, VPtr):
            return self.vstore(st, p, v, guard)
        if isinstance(p, Ptr):
            if p.obj == 0:
                if guard is TRUE:
                    raise Unsupported("store through null")
                return
            off = icval(p.off)
            if off is None:
                sp = self.split_ite(p.off)
                if sp:
                    c, a, b = sp
                    self.store(st, Ptr(p.obj, a), v, t, band(guard, c))
                    self.store(st, Ptr(p.obj, b), v, t, band(guard, bnot(c)))
                    return
                for o in self.cand_offsets(st, p, t):
                    self.mstore(st, p.obj, o, v, t.size, band(guard, ieq(p.off, ic(o))))
                return
            self.mstore(st, p.obj, off, v, t.size, guard)
            return
        raise Unsupported("store through %r" % (p,))

    def mstore(self, st, o, off, v, sz, guard=TRUE):
        if isinstance(v, tuple) and v and v[0] == "pk":
            for k, n, x in v[1]:
                if x is not UNDEF:
                    self.mstore(st, o, off + k, x, n, guard)
            return
        m = dict(self.mem(st, o))
        st.mem[o] = m
        sz = max(sz, 1)
        old = m.get(off)
        if guard is not TRUE:
            if old is not None and old[0] == sz:
                m[off] = (sz, vite(guard, v, old[1]))
            else:
                m[off] = (sz, v)
            return
        if old is None or old[0] != sz:
            self.clear(m, off, sz)
        m[off] = (sz, v)

    def clear(self, m, off, sz):
        for k in range(off - 15, off + sz):
            c = m.get(k)
            if c is None:
                continue
            if k + c[0] <= off:
                continue
            del m[k]
            if k < off or k + c[0] > off + sz:
                if isinstance(c[1], T) and c[1].sort == "I" and icval(c[1]) is not None:
                    n = icval(c[1])
                    for i in range(c[0]):
                        if not (off <= k + i < off + sz):
                            m[k + i] = (1, self.sgn((n >> (8 * i)) & 255, 8))

    # ------------------------------------------------------------ views
    def new_storage(self, name, rank, ext, sort, base):
        self.nsto += 1
        s = Storage(self.nsto, name, rank, ext, sort, base)
        self.storages[s.sid] = s
        return s

    def new_view(self, sto, dims, ext):
        self.nview += 1
        v = View(sto.sid, len(ext), dims)
        v.ext = ext
        self.viewtab[self.nview] = v
        return self.nview

    def handle(self, st, h):
        """Int term for a view handle -> list of (cond, View)"""
        n = icval(h)
        if n is not None:
            v = self.viewtab.get(n)
            if v is None:
                raise Unsupported("use of an unallocated view")
            return [(TRUE, v)]
        sp = self.split_ite(h)
        if sp:
            c, a, b = sp
            d = self.decide(st, c)
            if d is True:
                return self.handle(st, a)
            if d is False:
                return self.handle(st, b)
            return [(band(c, x), v) for x, v in self.handle(st, a)] + [(band(bnot(c), x), v) for x, v in self.handle(st, b)]
        raise Unsupported("symbolic view handle")

    def vref(self, st, h, idx):
        out = None
        for c, v in reversed(self.handle(st, h)):
            if len(idx) != v.rank:
                raise Unsupported("rank mismatch on view %s" % self.storages[v.sid].name)
            sto = self.storages[v.sid]
            if self.opts["bounds"]:
                for d, (i, e) in enumerate(zip(idx, v.ext)):
                    self.bound(st, c, i, e, sto.name, d)
            full = []
            for dm in v.dims:
                full.append(iadd(idx[dm[1]], dm[2]) if dm[0] == "a" else dm[1])
            p = VPtr(v.sid, tuple(full))
            out = p if out is None else vite(c, p, out)
        return out

    def bound(self, st, c, i, e, name, d):
        g = band(ile(ic(0), i), ilt(i, e))
        if g is TRUE:
            return
        s2 = st
        if c is not TRUE:
            s2 = st.copy()
            s2.pc = st.pc + (c,)
        key = ("b", frozenset(self.int_pc(s2.pc)), g)
        if key in self.dcache:
            return
        self.dcache[key] = True
        if is_int_only(g) and self.implied(key[1], g):
            self.auto_ok += 1
            return
        self.oblige("in-bounds access of array '%s' dimension %d" % (name, d), s2, g, "bounds")

    def chain(self, st, sid):
        c = st.ch.get(sid)
        if c is None:
            c = Chain(None, None)
            st.ch[sid] = c
        return c

    def lift_idx(self, st, idx):
        """split an index tuple on ite atoms: list of (cond, idx)"""
        for n, l in enumerate(idx):
            sp = self.split_ite(l)
            if sp:
                c = sp[0]
                ta, fa = [], []
                for l2 in idx:
                    ta.append(self.assume_in(l2, c, True))
                    fa.append(self.assume_in(l2, c, False))
                d = self.decide(st, c)
                if d is True:
                    return self.lift_idx(st, tuple(ta))
                if d is False:
                    return self.lift_idx(st, tuple(fa))
                return [(band(c, x), i) for x, i in self.lift_idx(st, tuple(ta))] + [(band(bnot(c), x), i) for x, i in self.lift_idx(st, tuple(fa))]
        return [(TRUE, idx)]

    def assume_in(self, l, c, val):
        r = ic(l.args[0])
        for a, k in l.args[1]:
            x = iatom(a)
            if a.op == "iite":
                if a.args[0] is c:
                    x = a.args[1] if val else a.args[2]
                elif a.args[0] is bnot(c):
                    x = a.args[2] if val else a.args[1]
            r = iadd(r, iscale(x, k))
        return r

    def vload(self, st, p, t):
        if self.klog is not None:
            self.klog.append(("r", self.kguard(st), p.sid, p.idx))
        if p.raw:
            self.bound(st, TRUE, p.idx[0], self.storages[p.sid].ext[0], self.storages[p.sid].name, 0)
        v = self.vread(st, p.sid, p.idx)
        return self.retype(v, t)

    def vread(self, st, sid, idx):
        parts = self.lift_idx(st, idx)
        r = None
        for c, i in reversed(parts):
            s2 = st
            if c is not TRUE:
                s2 = st.copy()
                s2.pc = st.pc + (c,)
            v = self.read(s2, sid, self.chain(st, sid), i)
            r = v if r is None else vite(c, v, r)
        return r

    def read(self, st, sid, ch, idx):
        key = (idx, frozenset(self.int_pc(st.pc)))
        r = ch.memo.get(key)
        if r is None:
            r = self._read(st, sid, ch, idx)
            ch.memo[key] = r
        return r

    def tri(self, st, c):
        d = self.decide(st, c) if is_int_only(c) else (True if c is TRUE else False if c is FALSE else None)
        return TRUE if d is True else FALSE if d is False else c

    def simp_int(self, st, c):
        """simplify a condition using int decisions on its conjuncts"""
        if c.op == "and":
            out = []
            for x in c.args:
                y = self.simp_int(st, x)
                if y is FALSE:
                    return FALSE
                out.append(y)
            return band(*out)
        return self.tri(st, c)

    def _read(self, st, sid, ch, idx):
        sto = self.storages[sid]
        if ch.e is None:
            return self.base(st, sto, idx)
        e = ch.e
        if e[0] == "pt":
            _, g, ix, val = e
            cs = [g]
            for a, b in zip(ix, idx):
                if a is not b:
                    q = ieq(a, b)
                    if q is FALSE:
                        return self.read(st, sid, ch.parent, idx)
                    cs.append(q)
            c = self.simp_int(st, band(*cs))
            if c is FALSE:
                return self.read(st, sid, ch.parent, idx)
            if c is TRUE:
                return val
            s2 = st.copy()
            s2.pc = st.pc + (bnot(c),)
            return vite(c, val, self.read(s2, sid, ch.parent, idx))
        if e[0] == "q":
            r = self.qmatch(st, e, idx)
            if r is None:  # not invertible: unknown content
                return self.havoc_read(st, sid, ch, idx)
            c, val, m = r
            c = self.simp_int(st, c)
            if c is FALSE:
                return self.read(st, sid, ch.parent, idx)
            if callable(val):
                val = val(m)
            if c is TRUE:
                return self.simp_val(st, val)
            s1 = st.copy()
            s1.pc = st.pc + (c,)
            s2 = st.copy()
            s2.pc = st.pc + (bnot(c),)
            return vite(c, self.simp_val(s1, val), self.read(s2, sid, ch.parent, idx))
        if e[0] == "ite":  # merged chains: (c, chain_a, chain_b)
            c = e[1]
            d = self.tri(st, c)
            if d is TRUE:
                return self.read(st, sid, e[2], idx)
            if d is FALSE:
                return self.read(st, sid, e[3], idx)
            s1 = st.copy()
            s1.pc = st.pc + (c,)
            s2 = st.copy()
            s2.pc = st.pc + (bnot(c),)
            return vite(c, self.read(s1, sid, e[2], idx), self.read(s2, sid, e[3], idx))
        if e[0] == "havoc":
            return app("%s@%s" % (sto.name, e[1]), idx, sto.sort)
        if e[0] == "fn":  # opaque content function idx->term, everywhere
            return e[1](self, st, idx)
        raise Unsupported("chain entry " + e[0])

    def havoc_read(self, st, sid, ch, idx):
        sto = self.storages[sid]
        return app("%s@h%d" % (sto.name, ch.depth), idx, sto.sort)

    def qmatch(self, st, e, idx):
        """entry ('q', vars, cond, ix, val): solve ix(vars)=idx. -> (cond, value) or None"""
        _, vs, cond, ix, val = e
        m = {}
        used = set()
        left = list(vs)
        prog = True
        while left and prog:
            prog = False
            for n, l in enumerate(ix):
                if n in used:
                    continue
                here = [(a, k) for a, k in l.args[1] if a in left]
                if len(here) == 1 and abs(here[0][1]) == 1:
                    a, k = here[0]
                    rest = isub(l, iscale(iatom(a), k))
                    rest = subst(rest, m) if m else rest
                    if any(x in rest_atoms(rest) for x in left):
                        continue
                    m[a] = iscale(isub(idx[n], rest), k)
                    left.remove(a)
                    used.add(n)
                    prog = True
        if left:
            # unsolved variables: only allowed if index and value do not mention them
            vv = set(left)
            for l in ix:
                if any(a in vv for a in atoms(l)):
                    return None
            if isinstance(val, T) and any(a in vv for a in atoms(val)):
                return None
            # cond must be an interval for each: exists v. cond
            nm = {}
            cs = list(cond.args) if cond.op == "and" else [cond]
            keep = []
            for v in left:
                lo, hi = None, None
                rest = []
                for c in cs:
                    if any(a is v for a in atoms(c)):
                        if c.op == "le0":
                            l = c.args[0]
                            k = dict(l.args[1]).get(v)
                            r = isub(l, iscale(iatom(v), k)) if k else None
                            if k == 1:
                                if hi is not None:
                                    return None
                                hi = iscale(r, -1)
                                continue
                            if k == -1:
                                if lo is not None:
                                    return None
                                lo = r
                                continue
                        return None
                    rest.append(c)
                if lo is None or hi is None:
                    return None
                cs = rest + [ile(lo, hi)]
            cond = band(*cs)
        memo = {}
        c = [subst(cond, m, memo) if m else cond]
        for n, l in enumerate(ix):
            if n not in used:
                c.append(ieq(subst(l, m, memo) if m else l, idx[n]))
        if callable(val):
            return band(*c), val, m
        if isinstance(val, T):
            v = subst(val, m, memo) if m else val
            if m:
                self.refact(m, memo)
        else:
            v = val
        return band(*c), v, m

    def refact(self, m, memo):
        """atoms created by substitution must get their (axiom / property) facts"""
        for x, y in list(memo.items()):
            if x.op == "app" and y is not x:
                for a in ([y] if y.sort != "I" else [q for q, _ in y.args[1]]):
                    if a.op == "app":
                        self.app_facts(a)

    def simp_val(self, st, v):
        """resolve int-only ite conditions inside a value under the path condition"""
        if not isinstance(v, T) or v.sort == "B":
            return v
        memo = {}
        if not any(x.op in ("rite", "iite") for x in self.subterms(v)):
            return v

        def go(x):
            r = memo.get(x)
            if r is not None:
                return r
            if x.op in ("rite", "iite"):
                c = self.simp_int(st, x.args[0])
                if c is TRUE:
                    r = go(x.args[1])
                elif c is FALSE:
                    r = go(x.args[2])
                else:
                    r = ite(go(c), go(x.args[1]), go(x.args[2]))
            else:
                r = rebuild(x, go)
                if x.op == "app" and r is not x and r.op == "app":
                    self.app_facts(r)
            memo[x] = r
            return r

        return go(v)

    def subterms(self, t):
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            yield x
            st.extend(children(x))

    def base(self, st, sto, idx):
        b = sto.base
        if b == "zero":
            return {"R": ZERO, "I": ic(0), "B": FALSE}[sto.sort]
        if b == "undef":
            return app(sto.name + "?", idx, sto.sort)
        t = app("V:" + sto.name, idx, sto.sort)
        a = t if t.sort != "I" else t.args[1][0][0]
        self.app_facts(a)
        return t

    def kguard(self, st):
        return band(*st.pc[self.kbase:])

    kbase = 0

    def vstore(self, st, p, v, guard=TRUE):
        sto = self.storages[p.sid]
        if p.raw:
            self.bound(st, guard, p.idx[0], sto.ext[0], sto.name, 0)
        if isinstance(v, T):
            if sto.sort == "R" and v.sort == "I":
                v = self.retype(v, _DBL)
            if sto.sort == "I" and v.sort == "B":
                v = iite(v, ic(1), ic(0))
            if sto.sort == "B" and v.sort == "I":
                v = bnot(ieq(v, ic(0)))
        if v is UNDEF:
            v = self.fresh("undef", sto.sort)
        for c, idx in self.lift_idx(st, p.idx):
            g = band(guard, c)
            if self.klog is not None:
                self.klog.append(("w", band(self.kguard(st), g), p.sid, idx))
            ch = self.chain(st, p.sid)
            # overwrite of the same cell with the same guard
            if ch.e is not None and ch.e[0] == "pt" and all(a is b for a, b in zip(ch.e[2], idx)) and (g is TRUE or ch.e[1] is g):
                if not (g is TRUE and False):
                    ch = ch.parent if (g is TRUE or ch.e[1] is g) else ch
            st.ch[p.sid] = Chain(ch, ("pt", g, idx, v))

    def fresh(self, base, sort):
        n = fresh_name(base)
        return iv(n) if sort == "I" else rv(n) if sort == "R" else bv(n)

    # ------------------------------------------------------------ facts on uninterpreted applications
    def app_facts(self, a):
        if a in self.facted:
            return
        self.facted.add(a)
        fn = a.args[0]
        if fn.startswith("V:"):
            sto = self.sto_by_name.get(fn[2:])
            if sto:
                for pr in sto.props:
                    pr(self, sto, a)
            return
        if fn in self.sum_alias:
            self.fact(a, req(a, app(self.sum_alias[fn], a.args[1:], "R")))
            return
        from builtins_ import math_facts

        math_facts(self, a)

    # ------------------------------------------------------------ obligations
    def oblige(self, name, st, goal, kind="assert", info=None):
        if goal is TRUE:
            self.trivial.append(name)
            self.trivial_kind[kind] = self.trivial_kind.get(kind, 0) + 1
            return
        self.obls.append(Obligation(name, st.pc, goal, kind, info))

    # ------------------------------------------------------------ run
    def run(self, entry, args=()):
        self.ginitmem = {}
        self.trivial = []
        self.trivial_kind = {}
        self.sto_by_name = {}
        st = State()
        st.mem = {}
        st.ch = {}
        st.pc = ()
        st.depth = 0
        for m in self.mods:
            ini, ty, c = m.ginit("llvm.global_ctors")
            if ini is not None and ini.kind == "agg":
                for e in ini.v:
                    f = e.v[1]
                    if f.kind == "func" and self.func(f.v):
                        out = self.call(self.func(f.v), [], st)
                        for k, s, v in out:
                            if k == "ret":
                                st = s
        f = self.func(entry)
        if f is None:
            raise Unsupported("no entry " + entry)
        outs = self.call(f, list(args), st)
        for k, s, v in outs:
            if k == "throw":
                self.oblige("no exception escapes (%s)" % self.exc_name(v), s, FALSE, "throw")
        return outs

    def exc_name(self, v):
        return v[1] if isinstance(v, tuple) else str(v)

    def call(self, f, args, st):
        """-> list of ('ret', state, value) / ('throw', state, exc)"""
        self.funcs_seen.add(f.name)
        if f.cfg is None:
            f.cfg = CFG(f)
        if st.depth > 400:
            raise Unsupported("call depth")
        regs = {}
        for p, a in zip(f.params, args):
            regs[p.id] = a
        st.depth += 1
        self.callstack.append(f.name)
        side = []
        try:
            r = self.region(f, st, regs, 0, None, f.cfg.n, side)
        finally:
            self.callstack.pop()
        outs = []
        if r is not None:
            s, rg = r
            s.depth -= 1
            outs.append(("ret", s, rg.get("ret", UNDEF)))
        for k, s, v in side:
            s.depth = st.depth if False else s.depth - 1
            outs.append((k, s, v))
        return outs

    def phis(self, f, st, regs, b, prev):
        blk = f.blocks[b]
        if not blk.phis:
            return
        new = {}
        for ph in blk.phis:
            for pb, v in ph.x:
                if pb == prev:
                    new[ph.id] = self.val(v, regs, st)
                    break
            else:
                raise Unsupported("phi without incoming")
        regs.update(new)

    def feasible(self, st, c):
        return self.decide(st, bnot(c)) is not True

    def region(self, f, st, regs, b, prev, stop, side, skip_phi=False):
        """execute from block b until `stop` is reached; returns (state, regs) merged or None. regs at stop have stop's phis evaluated."""
        cfg = f.cfg
        while True:
            if not skip_phi:
                if b != cfg.n:
                    self.phis(f, st, regs, b, prev)
            if b == stop:
                return st, regs
            skip_phi = False
            blk = f.blocks[b]
            # loop header: decide or summarise
            if b in cfg.loops and not (b, "force") in regs:
                r = self.try_loop(f, st, regs, b, side)
                if r is not None:
                    if r == "dead":
                        return None
                    st, regs, b, prev, skip_phi = r
                    continue
            jump = None
            n = len(blk.insts)
            i = 0
            for ins in blk.insts:
                self.steps += 1
                op = ins.op
                if op == "br":
                    if not ins.ops:
                        jump = [(TRUE, ins.x[0])]
                    else:
                        c = self.val(ins.ops[0], regs, st)
                        jump = self.br(st, c, ins.x[0], ins.x[1])
                elif op == "switch":
                    v = self.val(ins.ops[0], regs, st)
                    jump = []
                    neg = []
                    dflt, cases = ins.x
                    grouped = {}
                    for k, d in cases:
                        grouped.setdefault(d, []).append(ieq(v, ic(k)))
                    for d, cs in grouped.items():
                        c = bor(*cs)
                        dd = self.decide(st, c)
                        if dd is True:
                            jump = [(TRUE, d)]
                            neg = None
                            break
                        if dd is False:
                            continue
                        jump.append((c, d))
                        neg.append(bnot(c))
                    if neg is not None:
                        c = band(*neg)
                        if self.decide(st, c) is not False:
                            jump.append((c, dflt))
                        if len(jump) == 1:
                            jump = [(TRUE, jump[0][1])]
                elif op == "ret":
                    regs = {"ret": self.val(ins.ops[0], regs, st) if ins.ops else UNDEF}
                    return (st, regs) if stop == cfg.n else None
                elif op == "unreachable":
                    return None
                elif op == "resume":
                    v = self.val(ins.ops[0], regs, st)
                    side.append(("throw", st, st_exc(v)))
                    return None
                elif op in ("call", "invoke"):
                    outs = self.do_call(f, ins, st, regs)
                    nxt = None
                    conts = []
                    for k, s, v in outs:
                        if k == "ret":
                            nxt = (s, v)
                        elif k == "throw":
                            if op == "invoke":
                                conts.append((s, v))
                            else:
                                side.append((k, s, v))
                    if op == "call":
                        if nxt is None:
                            return None
                        st, v = nxt
                        if ins.ty.kind != "void":
                            regs[ins.id] = v
                    else:
                        arr = []
                        base = st.pc
                        m = cfg.ipdom.get(b, stop)
                        m2 = self.join_of(f, b, ins.x[1], stop)
                        if nxt is not None:
                            r1 = dict(regs)
                            if ins.ty.kind != "void":
                                r1[ins.id] = nxt[1]
                            arr.append((nxt[0], r1, ins.x[1]))
                        for s, v in conts:
                            r1 = dict(regs)
                            r1["exc"] = v
                            arr.append((s, r1, ins.x[2]))
                        if len(arr) == 0:
                            return None
                        if len(arr) == 1:
                            st, regs, nb = arr[0]
                            jump = [(TRUE, nb)]
                        else:
                            tgt = cfg.ipdom.get(b, stop)
                            if tgt is None:
                                tgt = stop
                            if self.post(cfg, stop, tgt):
                                tgt = stop
                            res = []
                            for s, r1, nb in arr:
                                x = self.region(f, s, r1, nb, b, tgt, side)
                                if x is not None:
                                    res.append(x)
                            if not res:
                                return None
                            st, regs = self.merge_many(res)
                            b, prev, skip_phi = tgt, None, True
                            jump = "merged"
                elif op == "landingpad":
                    exc = regs.get("exc")
                    sel = self.landing(ins, exc, st)
                    if sel is None:
                        side.append(("throw", st, exc))
                        return None
                    regs[ins.id] = (("exc", exc), sel)
                else:
                    self.inst(f, ins, st, regs)
                if self.steps > self.opts["max_steps"]:
                    raise Unsupported("step limit")
            if jump == "merged":
                continue
            if len(jump) == 1:
                c, nb = jump[0]
                if c is not TRUE:
                    st.pc = st.pc + (c,)
                prev, b = b, nb
                continue
            if not jump:
                return None
            # fork
            m = cfg.ipdom.get(b)
            if m is None or self.post(cfg, stop, m):
                m = stop
            res = []
            for k, (c, nb) in enumerate(jump):
                s = st.copy()
                s.pc = st.pc + (c,)
                x = self.region(f, s, dict(regs), nb, b, m, side)
                if x is not None:
                    res.append((c, x))
            if not res:
                return None
            if len(res) == 1:
                st, regs = res[0][1]
            else:
                st, regs = self.merge_list(st.pc, res)
            b, prev, skip_phi = m, None, True

    def join_of(self, f, b, x, stop):
        return stop

    def post(self, cfg, stop, m):
        """True if stop comes before m (stop strictly closer): m is beyond stop in the post-dominator chain"""
        if m == stop:
            return False
        x = m
        # if stop is on the ipdom chain of m, m is before stop -> False
        while True:
            if x == stop:
                return False
            nx = cfg.ipdom.get(x)
            if nx is None or nx == x:
                return stop != cfg.n
            x = nx

    def br(self, st, c, a, b):
        if c is UNDEF:
            c = self.fresh("undefcond", "B")
        if c is TRUE:
            return [(TRUE, a)]
        if c is FALSE:
            return [(TRUE, b)]
        d = self.decide(st, c)
        if d is True:
            return [(TRUE, a)]
        if d is False:
            return [(TRUE, b)]
        return [(c, a), (bnot(c), b)]

    # ------------------------------------------------------------ merging
    def merge_list(self, basepc, res):
        (c, (s, r)) = res[-1]
        for c2, (s2, r2) in reversed(res[:-1]):
            s, r = self.merge2(basepc, c2, s2, r2, s, r)
        return s, r

    def merge_many(self, res):
        # states from normal/exception continuation: use their path conditions as selector
        s, r = res[-1]
        for s2, r2 in reversed(res[:-1]):
            n = 0
            while n < len(s.pc) and n < len(s2.pc) and s.pc[n] is s2.pc[n]:
                n += 1
            c = band(*s2.pc[n:])
            s, r = self.merge2(s.pc[:n], c, s2, r2, s, r)
        return s, r

    def merge2(self, basepc, c, s1, r1, s2, r2):
        n = len(basepc)
        st = State()
        st.depth = s1.depth
        e1 = band(*s1.pc[n:])
        e2 = band(*s2.pc[n:])
        if e1 is c and e2 is bnot(c):
            st.pc = basepc
        else:
            o = bor(e1, e2)
            # keep common conjuncts explicit
            a1 = set(e1.args) if e1.op == "and" else {e1}
            a2 = set(e2.args) if e2.op == "and" else {e2}
            com = sorted(a1 & a2, key=lambda t: t.id)
            st.pc = basepc + tuple(com) + ((o,) if o is not TRUE else ())
        # memory
        st.mem = dict(s1.mem)
        for o, m2 in s2.mem.items():
            m1 = s1.mem.get(o)
            if m1 is None:
                st.mem[o] = m2 if o not in self.ginitmem else self.mergemem(c, self.ginitmem[o], m2)
            elif m1 is not m2:
                st.mem[o] = self.mergemem(c, m1, m2)
        st.ch = dict(s1.ch)
        for sid, c2 in s2.ch.items():
            c1 = s1.ch.get(sid)
            if c1 is None:
                c1 = self.chain(s1, sid)
            if c1 is not c2:
                st.ch[sid] = self.mergech(c, c1, c2)
        for sid, c1 in s1.ch.items():
            if sid not in s2.ch:
                c2 = Chain(None, None)
                if c1.e is not None:
                    st.ch[sid] = self.mergech(c, c1, c2)
        regs = {}
        for k, v in r1.items():
            if k in r2:
                w = r2[k]
                try:
                    regs[k] = v if v is w else (vite(c, v, w) if k != "exc" else v)
                except Unsupported:
                    pass
        return st, regs

    def mergemem(self, c, m1, m2):
        m = {}
        for k, (sz, v) in m1.items():
            w = m2.get(k)
            if w is None:
                m[k] = (sz, v)
            elif w[0] != sz:
                m[k] = (sz, UNDEF)
            elif w[1] is v:
                m[k] = (sz, v)
            else:
                try:
                    m[k] = (sz, vite(c, v, w[1]))
                except Unsupported:
                    m[k] = (sz, UNDEF)
        for k, w in m2.items():
            if k not in m1:
                m[k] = w
        return m

    def mergech(self, c, c1, c2):
        # common ancestor
        a, b = c1, c2
        while a is not b:
            if a is None or b is None:
                break
            if a.depth > b.depth:
                a = a.parent
            elif b.depth > a.depth:
                b = b.parent
            else:
                a, b = a.parent, b.parent
        if a is None or b is None or a is not b:
            # both are roots (no entries)
            a = Chain(None, None)
            anc1 = anc2 = None
        anc = a
        l1 = self.entries(c1, anc)
        l2 = self.entries(c2, anc)
        if all(e[0] == "pt" and e[1] is TRUE for e in l1 + l2):
            k1 = {}
            ok = True
            for e in l1:
                k1[e[2]] = e
            k2 = {e[2]: e for e in l2}
            if len(k1) == len(l1) and len(k2) == len(l2) and self.distinct(list(dict.fromkeys(list(k1) + list(k2)))):
                ch = anc
                for idx in dict.fromkeys([e[2] for e in l1] + [e[2] for e in l2]):
                    if idx in k1 and idx in k2:
                        ch = Chain(ch, ("pt", TRUE, idx, vite(c, k1[idx][3], k2[idx][3])))
                    elif idx in k1:
                        ch = Chain(ch, ("pt", c, idx, k1[idx][3]))
                    else:
                        ch = Chain(ch, ("pt", bnot(c), idx, k2[idx][3]))
                return ch
        ch = Chain(anc, ("ite", c, c1, c2))
        return ch

    def distinct(self, idxs):
        for i in range(len(idxs)):
            for j in range(i):
                if not any(ieq(a, b) is FALSE for a, b in zip(idxs[i], idxs[j])):
                    return False
        return True

    def entries(self, ch, anc):
        out = []
        while ch is not None and ch is not anc and ch.e is not None:
            out.append(ch.e)
            ch = ch.parent
        return out[::-1]

    def flat(self, ch, anc, guard):
        """entries newest-last as guarded entries since anc (expands merged chains)"""
        out = []
        while ch is not None and ch is not anc and ch.e is not None:
            out.append(ch)
            ch = ch.parent
        res = []
        for c in reversed(out):
            e = c.e
            if e[0] == "ite":
                a1 = self.flat(e[2], c.parent, band(guard, e[1]))
                a2 = self.flat(e[3], c.parent, band(guard, bnot(e[1])))
                res += a1 + a2
            elif e[0] == "pt":
                res.append(("pt", band(guard, e[1]), e[2], e[3]))
            elif e[0] == "q":
                res.append(("q", e[1], band(guard, e[2]), e[3], e[4]))
            else:
                raise Unsupported("kernel writes %s entry" % e[0])
        return res

    # ------------------------------------------------------------ exceptions
    def landing(self, ins, exc, st):
        clauses, cleanup = ins.x
        name = exc[1] if isinstance(exc, tuple) else None
        for n, cl in enumerate(clauses):
            if cl.kind == "null":
                return ic(1000)
            if cl.kind == "global":
                if self.exc_is(name, cl.v):
                    return ic(self.typeid(cl.v))
            elif cl.kind == "agg" or cl.kind == "zero":
                continue  # filter clause
        if cleanup:
            return ic(0)
        return None

    def typeid(self, ti):
        d = self.exc_types
        if ti not in d:
            d[ti] = len(d) + 1
        return d[ti]

    STDEXC = {"_ZTISt13runtime_error": "_ZTISt9exception", "_ZTISt12domain_error": "_ZTISt11logic_error",
              "_ZTISt11logic_error": "_ZTISt9exception", "_ZTISt12out_of_range": "_ZTISt11logic_error",
              "_ZTISt16invalid_argument": "_ZTISt11logic_error", "_ZTISt12length_error": "_ZTISt11logic_error",
              "_ZTISt11range_error": "_ZTISt13runtime_error", "_ZTISt14overflow_error": "_ZTISt13runtime_error",
              "_ZTISt15underflow_error": "_ZTISt13runtime_error", "_ZTISt9bad_alloc": "_ZTISt9exception"}

    def exc_is(self, name, ti):
        x = name
        while x is not None:
            if x == ti:
                return True
            x = self.STDEXC.get(x)
        return False

    # ------------------------------------------------------------ instructions
    def icmp(self, pred, a, b, bits, st):
        if isinstance(a, (Ptr, VPtr, FPtr, IPtr)) or isinstance(b, (Ptr, VPtr, FPtr, IPtr)):
            return self.pcmp(pred, a, b, st)
        if a is UNDEF or b is UNDEF:
            return self.fresh("undef", "B")
        if type(a).__name__ == "DPtr" and type(b).__name__ == "DPtr" and pred in ("eq", "ne"):
            # address of the first element of two views
            r = FALSE
            for c, v in self.handle(st, a.h):
                for d, w in self.handle(st, b.h):
                    if v.sid == w.sid:
                        r = bor(r, band(c, d, *[ieq(x[-1], y[-1]) for x, y in zip(v.dims, w.dims)]))
            return r if pred == "eq" else bnot(r)
        if isinstance(a, tuple) or isinstance(b, tuple):
            raise Unsupported("icmp on exception value")
        if a.sort == "B" or b.sort == "B":
            if a.sort == "I":
                a = bnot(ieq(a, ic(0)))
            if b.sort == "I":
                b = bnot(ieq(b, ic(0)))
            e = beq(a, b)
            if pred == "eq":
                return e
            if pred == "ne":
                return bnot(e)
            a, b = iite(a, ic(1), ic(0)), iite(b, ic(1), ic(0))
        if a.sort == "R" or b.sort == "R":
            raise Unsupported("icmp on float bits")
        if pred == "eq":
            return ieq(a, b)
        if pred == "ne":
            return bnot(ieq(a, b))
        if pred[0] == "u":
            a, b = self.unsg(a, bits, st), self.unsg(b, bits, st)
        k = pred[1:]
        if k == "lt":
            return ilt(a, b)
        if k == "le":
            return ile(a, b)
        if k == "gt":
            return ilt(b, a)
        return ile(b, a)

    def unsg(self, a, bits, st):
        v = icval(a)
        if v is not None:
            return ic(v & ((1 << bits) - 1))
        g = ile(ic(0), a)
        if self.decide(st, g) is True:
            return a
        return iite(g, a, iadd(a, ic(1 << bits)))

    def pcmp(self, pred, a, b, st):
        if isinstance(a, T):
            a = Ptr(0, a)
        if isinstance(b, T):
            b = Ptr(0, b)
        if isinstance(a, IPtr):
            return bite(a.c, self.pcmp(pred, a.a, b, st), self.pcmp(pred, a.b, b, st))
        if isinstance(b, IPtr):
            return bite(b.c, self.pcmp(pred, a, b.a, st), self.pcmp(pred, a, b.b, st))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj == b.obj:
                if pred == "eq":
                    return ieq(a.off, b.off)
                if pred == "ne":
                    return bnot(ieq(a.off, b.off))
                k = pred[1:]
                return {"lt": ilt, "le": ile}[k](a.off, b.off) if k in ("lt", "le") else {"gt": ilt, "ge": ile}[k](b.off, a.off)
            if pred in ("eq", "ne"):
                return bc(pred == "ne")
            return bc((a.obj < b.obj) == (pred[1] == "l"))
        if pred in ("eq", "ne"):
            if same(a, b):
                return bc(pred == "eq")
            if type(a) is not type(b) or isinstance(a, FPtr) or (isinstance(a, VPtr) and a.sid != b.sid):
                return bc(pred == "ne")
            if isinstance(a, VPtr):
                e = band(*[ieq(x, y) for x, y in zip(a.idx, b.idx)])
                return e if pred == "eq" else bnot(e)
        raise Unsupported("pointer comparison")

    def fcmp(self, pred, a, b):
        if a is UNDEF or b is UNDEF:
            return self.fresh("undef", "B")
        if pred == "false":
            return FALSE
        if pred == "true":
            return TRUE
        if pred == "uno" or pred == "ord":
            x = self.isnan(a)
            y = self.isnan(b) if b is not a else FALSE
            r = bor(x, y)
            return r if pred == "uno" else bnot(r)
        k = pred[1:]
        nan = bor(self.isnan(a), self.isnan(b)) if a.op in ("rv", "rite") or b.op in ("rv", "rite") else FALSE
        if nan is TRUE:
            return bc(pred[0] == "u")
        if nan is not FALSE and self.opts.get("finite", True):
            return bite(nan, bc(pred[0] == "u"), self.fcmp(pred, self.nonan(a), self.nonan(b)))
        for x, y, fl in ((a, b, False), (b, a, True)):
            if y.op == "rv" and y.args[0] in ("Inf", "-Inf") and not (x.op == "rv" and x.args[0] in ("Inf", "-Inf", "NaN")) and self.isfinite(x) is TRUE:
                big = (y.args[0] == "Inf") != fl  # x < y in the given order
                return {"eq": FALSE, "ne": TRUE, "lt": bc(big), "le": bc(big), "gt": bc(not big), "ge": bc(not big)}[k]
        return {"eq": lambda: req(a, b), "ne": lambda: bnot(req(a, b)), "lt": lambda: rlt(a, b), "le": lambda: rle(a, b),
                "gt": lambda: rlt(b, a), "ge": lambda: rle(b, a)}[k]()

    def nonan(self, a):
        """the value of a term on the paths where it is a number"""
        if a.op == "rite":
            x, y = self.nonan(a.args[1]), self.nonan(a.args[2])
            return y if isnan_const(x) else x if isnan_const(y) else rite(a.args[0], x, y)
        return a

    def isnan(self, a):
        if isnan_const(a):
            return TRUE
        if a.op == "rite":
            r = self.nan_memo.get(a)
            if r is None:
                r = self.nan_memo[a] = bite(a.args[0], self.isnan(a.args[1]), self.isnan(a.args[2]))
            return r
        if self.opts.get("finite", True) or a.op == "rc":
            return FALSE
        return app("isnan", (a,), "B")

    def isfinite(self, a):
        if self.opts.get("finite", True) or a.op == "rc":
            return TRUE
        t = app("isfinite", (a,), "B")
        return t

    def wrap(self, v, bits, st):
        if not self.opts["exact_ints"]:
            return v
        n = icval(v)
        if n is not None:
            n &= (1 << bits) - 1
            return self.sgn(n, bits)
        lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        if self.decide(st, band(ile(ic(lo), v), ile(v, ic(hi)))) is True:
            return v
        return isub(emod(iadd(v, ic(-lo)), 1 << bits), ic(-lo))

    def toI(self, v):
        if isinstance(v, T) and v.sort == "B":
            return iite(v, ic(1), ic(0))
        return v

    def inst(self, f, ins, st, regs):
        op = ins.op
        ops = ins.ops
        V = lambda k: self.val(ops[k], regs, st)
        if op == "load":
            regs[ins.id] = self.load(st, V(0), ins.ty)
            return
        if op == "store":
            self.store(st, V(1), V(0), ops[0].ty)
            return
        if op == "getelementptr":
            regs[ins.id] = self.gep(ins.x, V(0), [V(k) for k in range(1, len(ops))])
            return
        if op == "alloca":
            o = self.newobj("%s:%d" % (f.name[:40], ins.id), ins.x.size)
            st.mem[o] = {}
            regs[ins.id] = Ptr(o, ic(0))
            return
        if op in ("fadd", "fsub", "fmul", "fdiv", "fneg", "frem"):
            a = V(0)
            b = V(1) if len(ops) > 1 else None
            if a is UNDEF or b is UNDEF:
                regs[ins.id] = self.fresh("undef", "R")
                return
            if op == "fadd":
                r = radd(a, b)
            elif op == "fsub":
                r = rsub(a, b)
            elif op == "fmul":
                r = rmul(a, b)
            elif op == "fneg":
                r = rneg(a)
            elif op == "fdiv":
                if self.opts["div"] and b.op != "rc":
                    self.oblige("divisor is not zero", st, bnot(req(b, ZERO)), "div")
                elif b.op != "rc":  # stated as an assumption of the property
                    g = bnot(req(b, ZERO))
                    if g is not TRUE and g is not FALSE and g not in st.pc:
                        st.pc = st.pc + (g,)
                r = rdiv(a, b)
            else:
                raise Unsupported("frem")
            regs[ins.id] = r
            return
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor"):
            regs[ins.id] = self.binop(op, V(0), V(1), ins.ty.bits, st)
            return
        if op == "icmp":
            t = ops[0].ty
            regs[ins.id] = self.icmp(ins.x, V(0), V(1), t.bits or 64, st)
            return
        if op == "fcmp":
            regs[ins.id] = self.fcmp(ins.x, V(0), V(1))
            return
        if op == "select":
            c, a, b = V(0), V(1), V(2)
            if c is UNDEF:
                c = self.fresh("undef", "B")
            d = self.decide(st, c) if c not in (TRUE, FALSE) else (c is TRUE)
            regs[ins.id] = a if d is True else b if d is False else vite(c, a, b)
            return
        if op in ("zext", "sext", "trunc", "bitcast", "fpext", "fptrunc", "sitofp", "uitofp", "fptosi", "fptoui", "ptrtoint", "inttoptr", "freeze",
                  "addrspacecast"):
            regs[ins.id] = self.cast(op, V(0), ops[0].ty, ins.ty, st)
            return
        if op == "extractvalue":
            v = V(0)
            for k in ins.x:
                v = v[k] if isinstance(v, tuple) else UNDEF
            regs[ins.id] = v
            return
        if op == "insertvalue":
            regs[ins.id] = self.insval(V(0), V(1), ins.x, ins.ty)
            return
        if op == "fence":
            return
        if op == "atomicrmw":
            p, v = V(0), V(1)
            old = self.load(st, p, ins.ty)
            kinds = {0: v, 1: iadd(old, v) if isinstance(old, T) and old.sort == "I" else None, 2: isub(old, v) if isinstance(old, T) and old.sort == "I" else None}
            new = kinds.get(ins.x)
            if new is None:
                raise Unsupported("atomicrmw")
            self.store(st, p, new, ins.ty)
            regs[ins.id] = old
            return
        if op == "extractelement":
            k = icval(V(1))
            regs[ins.id] = V(0)[k]
            return
        if op == "insertelement":
            v = V(0)
            if v is UNDEF:
                v = (UNDEF,) * ins.ty.n
            k = icval(V(2))
            regs[ins.id] = v[:k] + (V(1),) + v[k + 1:]
            return
        raise Unsupported("instruction " + op)

    def pkpart(self, v, off, n):
        for k, z, x in v[1]:
            if k == off and (z == n or (z < n and k == max(q[0] for q in v[1]))):
                return x
        raise Unsupported("part of a packed value")

    def insval(self, agg, v, idx, ty):
        if agg is UNDEF:
            agg = tuple(UNDEF for _ in (ty.fields if ty.kind == "struct" else range(ty.n)))
        k = idx[0]
        if len(idx) == 1:
            return agg[:k] + (v,) + agg[k + 1:]
        sub = ty.fields[k] if ty.kind == "struct" else ty.elem
        return agg[:k] + (self.insval(agg[k], v, idx[1:], sub),) + agg[k + 1:]

    def binop(self, op, a, b, bits, st):
        if a is UNDEF or b is UNDEF:
            return self.fresh("undef", "B" if bits == 1 else "I")
        if isinstance(a, IPtr) or isinstance(b, IPtr):
            c = a.c if isinstance(a, IPtr) else b.c

            def pick(x, yes):
                while isinstance(x, IPtr) and x.c is c:
                    x = x.a if yes else x.b
                return x
            return vite(c, self.binop(op, pick(a, True), pick(b, True), bits, st), self.binop(op, pick(a, False), pick(b, False), bits, st))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == "sub":
            if a.obj == b.obj:
                return isub(a.off, b.off)
            raise Unsupported("pointer difference")
        if isinstance(a, VPtr) and isinstance(b, VPtr) and op == "sub" and a.sid == b.sid and len(a.idx) == 1:
            return iscale(isub(a.idx[0], b.idx[0]), 8)
        if isinstance(a, Ptr) and isinstance(b, T):
            if op == "add":
                return Ptr(a.obj, iadd(a.off, b))
            if op == "sub":
                return Ptr(a.obj, isub(a.off, b))
            if op == "and" and icval(b) is not None and icval(a.off) is not None:
                return Ptr(a.obj, ic(icval(a.off) & icval(b))) if icval(b) < 0 else ic(icval(a.off) & icval(b))
        if isinstance(a, tuple) and a and a[0] == "pk" and isinstance(b, T) and icval(b) is not None:
            n = icval(b)
            if op in ("lshr", "ashr") and n % 8 == 0:
                return self.pkpart(a, n // 8, bits // 8 - n // 8)
            if op == "and" and n > 0 and (n & (n + 1)) == 0 and n.bit_length() % 8 == 0:
                return self.pkpart(a, 0, n.bit_length() // 8)
        if op == "or" and isinstance(a, tuple) and a and a[0] == "pk2":
            a, b = b, a
        if op == "or" and isinstance(b, tuple) and b and b[0] == "pk2":
            return ("pk", ((0, 4, a), (4, 4, b[1])))
        if not (isinstance(a, T) and isinstance(b, T)):
            raise Unsupported("%s on pointers (%r, %r)" % (op, a, b))
        if bits == 1:
            if op == "and":
                return band(a, b)
            if op == "or":
                return bor(a, b)
            if op in ("xor", "add", "sub"):
                return bnot(beq(a, b))
            raise Unsupported("i1 " + op)
        a, b = self.toI(a), self.toI(b)
        va, vb = icval(a), icval(b)
        W = lambda v: self.wrap(v, bits, st)
        if op == "add":
            return W(iadd(a, b))
        if op == "sub":
            return W(isub(a, b))
        if op == "mul":
            return W(imul(a, b))
        if op in ("sdiv", "srem", "udiv", "urem"):
            if op[0] == "u":
                a, b = self.unsg(a, bits, st), self.unsg(b, bits, st)
            if self.opts["bounds"] and icval(b) is None:
                g = bnot(ieq(b, ic(0)))
                if self.decide(st, g) is not True:
                    self.oblige("integer divisor is not zero", st, g, "div")
            return idiv(a, b) if op.endswith("div") else imod(a, b)
        if va is not None and vb is not None:
            M = (1 << bits) - 1
            x, y = va & M, vb & M
            if op == "and":
                return self.sgn(x & y, bits)
            if op == "or":
                return self.sgn(x | y, bits)
            if op == "xor":
                return self.sgn(x ^ y, bits)
            if op == "shl":
                return self.sgn((x << y) & M, bits)
            if op == "lshr":
                return self.sgn(x >> y, bits)
            if op == "ashr":
                return ic(va >> y)
        if va is not None and op in ("and", "or", "xor"):
            a, b, va, vb = b, a, vb, va
        if vb is not None:
            if op == "shl":
                if bits == 64 and vb == 32:
                    return ("pk2", a)
                return W(iscale(a, 1 << vb))
            if op == "lshr":
                u = self.unsg(a, bits, st)
                return idiv(u, ic(1 << vb))
            if op == "ashr":
                return iatom(mk("floordiv", (a, 1 << vb), "I")) if False else idiv(a, ic(1 << vb)) if self.decide(st, ile(ic(0), a)) is True else self.floordiv(a, 1 << vb)
            if op == "and":
                if vb == 0:
                    return ic(0)
                if vb == -1:
                    return a
                if vb > 0 and (vb & (vb + 1)) == 0:
                    return self.low(a, vb + 1)
                if vb < 0 and ((-vb) & (-vb - 1)) == 0:
                    return isub(a, self.low(a, -vb))
            if op == "or" and vb == 0:
                return a
            if op == "or" and bits == 64 and vb % (1 << 32) == 0 and self.decide(st, band(ile(ic(0), a), ile(a, ic((1 << 32) - 1)))) is True:
                return ("pk", ((0, 4, a), (4, 4, ic(vb >> 32))))
            if op == "xor":
                if vb == 0:
                    return a
                if vb == -1:
                    return isub(ic(-1), a)
                if vb == 1 and self.is01(a):
                    return isub(ic(1), a)
        if self.is01(a) and self.is01(b):
            x, y = bnot(ieq(a, ic(0))), bnot(ieq(b, ic(0)))
            r = {"and": band(x, y), "or": bor(x, y), "xor": bnot(beq(x, y))}.get(op)
            if r is not None:
                return iite(r, ic(1), ic(0))
        sp = self.split_ite(a)
        if sp and vb is not None:
            return iite(sp[0], self.binop(op, sp[1], b, bits, st), self.binop(op, sp[2], b, bits, st))
        return app("i%s%d" % (op, bits), (a, b), "I")

    def floordiv(self, a, n):
        return idiv(isub(a, emod(a, n)), ic(n)) if False else iatom(mk("idiv", (isub(a, emod(a, n)), ic(n)), "I"))

    def low(self, a, n):
        sp = self.split_ite(a)
        if sp and all(icval(x) is not None for x in sp[1:]):
            return iite(sp[0], ic(icval(sp[1]) % n), ic(icval(sp[2]) % n))
        return emod(a, n)

    def is01(self, a):
        v = icval(a)
        if v is not None:
            return v in (0, 1)
        if a.args[0] == 0 and len(a.args[1]) == 1 and a.args[1][0][1] == 1 and a.args[1][0][0].op == "iite":
            x = a.args[1][0][0]
            return self.is01(x.args[1]) and self.is01(x.args[2])
        return False

    def cast(self, op, v, ft, tt, st):
        if v is UNDEF:
            return UNDEF
        if op == "freeze":
            return v
        if isinstance(v, tuple) and v and v[0] == "pk" and op == "trunc":
            return self.pkpart(v, 0, tt.bits // 8)
        if isinstance(v, tuple) and v and v[0] == "pk":
            raise Unsupported("cast of a packed value")
        if isinstance(v, (Ptr, VPtr, FPtr, IPtr)):
            return v
        if op in ("zext", "sext"):
            if v.sort == "B":
                return iite(v, ic(1 if op == "zext" else -1), ic(0))
            if v.sort == "R":
                return v
            if op == "zext":
                return self.unsg(v, ft.bits, st)
            return v
        if op == "trunc":
            if v.sort == "B":
                return v
            if tt.bits == 1:
                n = icval(v)
                if n is not None:
                    return bc(n & 1)
                if self.is01(v):
                    return bnot(ieq(v, ic(0)))
                return ieq(emod(v, 2), ic(1))
            n = icval(v)
            if n is not None:
                return self.sgn(n & ((1 << tt.bits) - 1), tt.bits)
            return self.wrap(v, tt.bits, st)
        if op in ("sitofp", "uitofp"):
            if v.sort == "B":
                return rite(v, ONE if op == "uitofp" else rc(-1), ZERO)
            if op == "uitofp":
                v = self.unsg(v, ft.bits, st)
            sp = self.split_ite(v)
            if sp:
                return rite(sp[0], self.cast("sitofp", sp[1], ft, tt, st), self.cast("sitofp", sp[2], ft, tt, st))
            prec = 24 if tt.bits == 32 else 53
            if self.opts["exact_ints"] and ft.bits > prec and icval(v) is None:
                exact = band(ile(ic(-(1 << prec)), v), ile(v, ic(1 << prec)))
                if self.decide(st, exact) is not True:
                    # the nearest floating-point number: exact up to 2^53, else within the relative rounding error
                    r, x = self.fresh("rounded", "R"), i2r(v)
                    d = rmul(rc(1 << prec), rsub(r, x))
                    near = bor(band(rle(ZERO, x), rle(d, x), rle(rneg(x), d)), band(rle(x, ZERO), rle(d, rneg(x)), rle(x, d)))
                    st.pc += (bor(band(exact, req(r, x)), band(bnot(exact), near)),)
                    return r
            return i2r(v)
        if op in ("fptosi", "fptoui"):
            c = rcval(v)
            if c is not None:
                n = abs(c.numerator) // c.denominator
                return ic(n if c >= 0 else -n)
            return iatom(mk("r2i", (v,), "I"))
        if op in ("fpext", "fptrunc"):
            return v
        if op == "bitcast":
            return self.retype(v, tt)
        if op == "ptrtoint" or op == "inttoptr":
            return v
        raise Unsupported("cast " + op)

    # ------------------------------------------------------------ calls
    def do_call(self, f, ins, st, regs):
        cv = ins.x[0]
        if isinstance(cv, Const) and cv.kind == "func":
            tgt = FPtr(cv.v)
        else:
            if isinstance(cv, Const) and cv.kind == "other":
                return [("ret", st, UNDEF)]  # inline asm (do-not-optimise barriers)
            tgt = self.val(cv, regs, st)
        args = []
        for o in ins.ops:
            if isinstance(o, Const) and o.kind == "meta":
                args.append(UNDEF)
            else:
                args.append(self.val(o, regs, st))
        return self.invoke(tgt, args, ins, st)

    def invoke(self, tgt, args, ins, st):
        if isinstance(tgt, IPtr):
            d = self.decide(st, tgt.c)
            if d is True:
                return self.invoke(tgt.a, args, ins, st)
            if d is False:
                return self.invoke(tgt.b, args, ins, st)
            s1, s2 = st.copy(), st.copy()
            s1.pc = st.pc + (tgt.c,)
            s2.pc = st.pc + (bnot(tgt.c),)
            o1 = self.invoke(tgt.a, args, ins, s1)
            o2 = self.invoke(tgt.b, args, ins, s2)
            outs = [o for o in o1 + o2 if o[0] != "ret"]
            r1 = [o for o in o1 if o[0] == "ret"]
            r2 = [o for o in o2 if o[0] == "ret"]
            if r1 and r2:
                s, r = self.merge2(st.pc, tgt.c, r1[0][1], {"ret": r1[0][2]}, r2[0][1], {"ret": r2[0][2]})
                outs.append(("ret", s, r.get("ret", UNDEF)))
            else:
                outs += r1 + r2
            return outs
        if not isinstance(tgt, FPtr):
            raise Unsupported("indirect call through %r" % (tgt,))
        name = tgt.name
        from builtins_ import MODELS, intrinsic, pattern

        m = MODELS.get(name)
        if m is not None:
            return self.wrapret(m(self, st, args, ins), st)
        r = pattern(self, st, name, args, ins)
        if r is not None:
            return self.wrapret(r, st)
        for match, inv in self.fun_contracts:
            if match in name:
                # the callee is used through its contract: some function of its real arguments, with the proved postcondition
                v = app("C:" + match, tuple(a for a in args if isinstance(a, T) and a.sort == "R"), "R")
                self.funcs_by_contract.add(name)
                st.pc += (self.apply_inv(inv, st, v),)
                return [("ret", st, v)]
        fn = self.func(name)
        if fn is not None:
            return self.call(fn, args, st)
        if name.startswith("llvm."):
            return self.wrapret(intrinsic(self, st, name, args, ins), st)
        return self.wrapret(self.unknown(name, ins, st, args), st)

    def wrapret(self, r, st):
        if isinstance(r, list):
            return r
        return [("ret", st, r)]

    def unknown(self, name, ins, st, args):
        self.havoc[name] = self.havoc.get(name, 0) + 1
        if not self.opts.get("allow_unknown"):
            raise Unsupported("call of a function without contract: " + name)
        return self.freshval(ins.ty, name)

    def freshval(self, t, name):
        if t.kind == "void":
            return UNDEF
        if t.kind == "int":
            return self.fresh(name, "B" if t.bits == 1 else "I")
        if t.kind == "float":
            return self.fresh(name, "R")
        if t.kind == "ptr":
            return Ptr(self.newobj("ext:" + name), ic(0))
        if t.kind == "struct":
            return tuple(self.freshval(x, name) for x in t.fields)
        raise Unsupported("unknown external " + name)

    # ------------------------------------------------------------ C strings
    def cstr(self, st, p, limit=4096):
        if not isinstance(p, Ptr):
            raise Unsupported("string pointer")
        out = bytearray()
        off = icval(p.off)
        m = self.mem(st, p.obj)
        while True:
            b = self.byte(m, off)
            if b is None:
                raise Unsupported("non-constant string (%s)" % self.objname.get(p.obj))
            if b == 0:
                break
            out.append(b)
            off += 1
        return out.decode("latin1")

    # ------------------------------------------------------------ quantified regions
    def try_loop(self, f, st, regs, h, side):
        """called at a loop header with its phis evaluated.  Returns None to execute normally."""
        cfg = f.cfg
        body = cfg.loops[h]
        blk = f.blocks[h]
        # evaluate the header on copies to see if the exit is decided
        exits = []
        for b in body:
            t = f.blocks[b].insts[-1]
            for s in f.blocks[b].succs:
                if s not in body:
                    exits.append(b)
        lc = self.find_contract(f, h)
        if lc is not None:
            return self.contract_loop(f, st, regs, h, side, lc)
        if blk.insts[-1].op != "br" or not blk.insts[-1].ops or h not in exits:
            return None
        # header must be side-effect free to peek (loads/arith only)
        for ins in blk.insts[:-1]:
            if ins.op in ("invoke", "atomicrmw"):
                return None
            if ins.op == "call":
                nm = ins.x[0].v if isinstance(ins.x[0], Const) else None
                if nm is None or not self.readonly(nm):
                    return None
        s2, r2 = st.copy(), dict(regs)
        kl = self.klog
        self.klog = None if kl is None else []
        try:
            for ins in blk.insts[:-1]:
                if ins.op == "call":
                    outs = self.do_call(f, ins, s2, r2)
                    s2 = outs[0][1]
                    if ins.ty.kind != "void":
                        r2[ins.id] = outs[0][2]
                else:
                    self.inst(f, ins, s2, r2)
        finally:
            self.klog = kl
        c = self.val(blk.insts[-1].ops[0], r2, s2)
        if c is TRUE or c is FALSE or not isinstance(c, T):
            return None
        if not is_int_only(c) or self.decide(st, c) is not None:
            return None
        return self.sum_loop(f, st, regs, h, side, body)

    def readonly(self, nm, depth=0):
        """a call that only reads (so that a loop header may contain it)"""
        if nm.startswith(("llvm.lifetime", "__vk_extent", "llvm.s", "llvm.u", "llvm.dbg", "llvm.abs", "llvm.f", "llvm.expect", "_ZSt21__glibcxx_assert_fail")):
            return True
        r = self.ro.get(nm)
        if r is not None:
            return r
        fn = self.func(nm)
        if fn is None or fn.cfg is None or depth > 8 or (nm in __import__('builtins_').MODELS):
            return False
        self.ro[nm] = False
        ok = len(fn.cfg.loops) == 0
        for b in fn.blocks:
            for ins in b.insts:
                if ins.op in ("invoke", "atomicrmw", "resume", "landingpad"):
                    ok = False
                elif ins.op == "store":
                    ok = False
                elif ins.op == "call":
                    c = ins.x[0].v if isinstance(ins.x[0], Const) else None
                    if c is None or not self.readonly(c, depth + 1):
                        ok = False
        self.ro[nm] = ok
        return ok

    def sum_loop(self, f, st, regs, h, side, body):
        cfg = f.cfg
        blk = f.blocks[h]
        term = blk.insts[-1]
        inn = [s for s in term.x if s in body]
        out = [s for s in term.x if s not in body]
        if len(inn) != 1 or len(out) != 1:
            raise Unsupported("loop shape in " + f.name)
        pos = term.x[0] in body
        # ---- classify phis
        tname = fresh_name("it")
        tv = iv(tname)
        tat = tv.args[1][0][0]
        int_phis = []
        others = []
        for ph in blk.phis:
            v = regs[ph.id]
            step = self.phi_step(f, ph, h, body)
            if step is not None and isinstance(v, T) and v.sort == "I":
                int_phis.append((ph, v, step))
            elif isinstance(v, VPtr) and len(v.idx) == 1 and self.ptr_step(f, ph, v, body) is not None:
                int_phis.append((ph, v, self.ptr_step(f, ph, v, body)))
            else:
                others.append((ph, v))

        def advance(v, d):
            return VPtr(v.sid, (iadd(v.idx[0], d),), True) if isinstance(v, VPtr) else iadd(v, d)

        # t counts iterations from 0
        vals = {ph.id: advance(v, iscale(tv, s)) for ph, v, s in int_phis}
        poison = {}
        closed = {}  # (storage, index) or (object, offset) -> (value before the loop, change per iteration)
        refuted = set()
        for rounds in range(6):
            s = st.copy()
            for (o, k), (v0, c) in closed.items():
                v = advance(v0, iscale(tv, c))
                if o in self.storages and isinstance(k, tuple):
                    s.ch[o] = Chain(self.chain(s, o), ("pt", TRUE, k, v))
                else:
                    m = dict(self.mem(s, o))
                    m[k] = (m[k][0], v)
                    s.mem[o] = m
            prech = dict(s.ch)
            r = dict(regs)
            r.update(vals)
            for ph, v in others:
                if ph.id in poison:
                    r[ph.id] = poison[ph.id]
            # evaluate header
            premem = dict(s.mem)
            s.pc = st.pc + (ile(ic(0), tv),)
            kl, kb = self.klog, self.kbase
            log = []
            self.klog = log
            self.kbase = len(s.pc)
            nobl = len(self.obls)
            if not self.in_kernel:
                self.scope.append(tv)
            try:
                r[(h, "force")] = True
                for ins in blk.insts[:-1]:
                    if ins.op == "call":
                        outs = self.do_call(f, ins, s, r)
                        s = outs[0][1]
                        if ins.ty.kind != "void":
                            r[ins.id] = outs[0][2]
                    else:
                        self.inst(f, ins, s, r)
                c = self.val(term.ops[0], r, s)
                if not pos:
                    c = bnot(c)
                rng = self.interval(st, c, tat)
                explore = rng is None and rounds == 0 and not any(a is tat for a in atoms(c))
                if explore:
                    # the counter may be an object in memory: run one iteration to find how it advances
                    rng = self.fresh("iterations", "I")
                if rng is None:
                    raise Unsupported("loop bound in " + f.name)
                n = rng  # number of iterations: t in [0, n)
                s.pc = st.pc + (ile(ic(0), tv), ilt(tv, n))
                self.kbase = len(st.pc)
                sd = []
                # break exits are not allowed: detect by running until header
                x = self.region_until(f, s, r, inn[0], h, h, sd, body)
            finally:
                self.klog, self.kbase = kl, kb
                if not self.in_kernel:
                    self.scope.pop()
            if x is None or sd:
                raise Unsupported("loop with abrupt exit in " + f.name)
            se, re = x
            # check phis
            bad = False
            for ph, v, stp in int_phis:
                want = advance(v, iscale(iadd(tv, ic(1)), stp))
                if not same(re[ph.id], want):
                    raise Unsupported("irregular induction in " + f.name)
            for ph, v in others:
                w = re[ph.id]
                cur = poison.get(ph.id, v)
                if not same(w, cur):
                    if isinstance(v, T):
                        raise LoopCarried(f.name, h)
                    raise Unsupported("loop-carried pointer in " + f.name)
            # cells with a closed form: initial value plus a constant per iteration
            again = False
            for (o, k), (v0, c) in closed.items():
                if isinstance(k, tuple):
                    now = self._read(se, o, self.chain(se, o), k)
                else:
                    now = se.mem[o][k][1]
                if not same(now, advance(v0, iscale(iadd(tv, ic(1)), c))):
                    if isinstance(k, tuple):
                        raise LoopCarried(f.name, h)
                    refuted.add((o, k))
            for x in refuted:
                again |= closed.pop(x, None) is not None
            for sid, ch in se.ch.items():
                c0 = prech.get(sid)
                if c0 is ch or sid not in prech or self.storages[sid].sort != "I":
                    continue
                es = self.flat(ch, c0, TRUE)
                if all(e[0] == "pt" and all(icval(x) is not None for x in e[2]) for e in es):
                    for ix in dict.fromkeys(e[2] for e in es):
                        if (sid, ix) in closed:
                            continue
                        v0 = self._read(st, sid, self.chain(st, sid), ix)
                        d = icval(isub(self._read(se, sid, ch, ix), v0))
                        if d is None:
                            raise LoopCarried(f.name, h)
                        closed[(sid, ix)] = (v0, d)
                        again = True
            # local memory changes
            chg = {}
            for o, m in se.mem.items():
                m0 = premem.get(o)
                if m0 is None or m0 is m:
                    continue
                for k, cell in m.items():
                    if (k not in m0 or not same(m0[k][1], cell[1])) and (o, k) not in closed:
                        chg.setdefault(o, []).append(k)
                        v0 = self.mem(st, o).get(k, (0, None))[1]
                        if isinstance(v0, T) and v0.sort == "I" and isinstance(cell[1], T) and cell[1].sort == "I":
                            d = icval(isub(cell[1], v0))
                            if d is not None and (o, k) not in refuted:
                                chg[o].pop()
                                closed[(o, k)] = (v0, d)
                                again = True
                        elif isinstance(v0, VPtr) and isinstance(cell[1], VPtr) and v0.sid == cell[1].sid and len(v0.idx) == 1:
                            d = icval(isub(cell[1].idx[0], v0.idx[0]))
                            if d is not None and (o, k) not in refuted:
                                chg[o].pop()
                                closed[(o, k)] = (v0, d)
                                again = True
            if again:
                del self.obls[nobl:]
                continue
            if explore:
                raise Unsupported("loop without induction variable in " + f.name)
            new = False
            for o, ks in chg.items():
                for k in ks:
                    if (o, k) not in self.loop_poison:
                        new = True
            if new:
                # rerun with these cells unknown at the beginning of an iteration
                del self.obls[nobl:]
                st = st.copy()
                for o, ks in chg.items():
                    m = dict(self.mem(st, o))
                    for k in ks:
                        sz = se.mem[o][k][0]
                        pv = se.mem[o][k][1]
                        u = self.fresh("carried", pv.sort) if isinstance(pv, T) else UNDEF
                        m[k] = (sz, u)
                        self.loop_poison[(o, k)] = u
                    st.mem[o] = m
                continue
            break
        else:
            raise Unsupported("loop-carried local state in " + f.name)
        # carried values must not be used
        pois = [u for u in self.loop_poison.values() if isinstance(u, T)]
        res = st.copy()
        rngc = band(ile(ic(0), tv), ilt(tv, n))
        if pois:
            names = set()
            for u in pois:
                names |= set(atoms(u))
        else:
            names = set()
        for sid, ch in se.ch.items():
            c0 = prech.get(sid, st.ch.get(sid))
            if c0 is ch:
                continue
            es = self.flat(ch, c0, TRUE)
            if es and all(e[0] == "pt" and (sid, e[2]) in closed for e in es):
                continue
            for e in es:
                if names and any(a in names for x in ([e[1] if e[0] == "pt" else e[2]] + list(e[2] if e[0] == "pt" else e[3]) + [e[3] if e[0] == "pt" else e[4]]) if isinstance(x, T) for a in atoms(x)):
                    raise LoopCarried(f.name, h)
            res.ch[sid] = self.qpush(res, sid, es, [tat], rngc, st)
        fin = n if self.decide(st, ile(ic(0), n)) is True else iite(ile(ic(0), n), n, ic(0))
        for (o, k), (v0, c) in closed.items():
            v = advance(v0, iscale(fin, c))
            if isinstance(k, tuple):
                res.ch[o] = Chain(self.chain(res, o), ("pt", TRUE, k, v))
            else:
                m = dict(self.mem(res, o))
                m[k] = (m[k][0], v)
                res.mem[o] = m
        self.check_race(st, [x for x in log if (x[2], x[3]) not in closed], [tat], rngc, "loop in " + f.name, dep_only=True)
        if kl is not None:
            # propagate accesses to the enclosing kernel, quantified over t
            for k, g, sid, idx in log:
                kl.append((k, band(self.kguard(st), g, rngc), sid, idx))
        # unknown after the loop
        for o, ks in chg.items():
            m = dict(self.mem(res, o))
            for k in ks:
                m[k] = (m[k][0], UNDEF)
            res.mem[o] = m
        self.loop_summaries += 1
        r = dict(regs)
        fin = n if self.decide(st, ile(ic(0), n)) is True else iite(ile(ic(0), n), n, ic(0))
        for ph, v, stp in int_phis:
            r[ph.id] = advance(v, iscale(fin, stp))
        # run the header once more, then leave
        kl = self.klog
        for ins in blk.insts[:-1]:
            if ins.op == "call":
                outs = self.do_call(f, ins, res, r)
                res = outs[0][1]
                if ins.ty.kind != "void":
                    r[ins.id] = outs[0][2]
            else:
                self.inst(f, ins, res, r)
        return res, r, out[0], h, False

    def region_until(self, f, s, r, b, prev, stop, side, body):
        """run the loop body from b until the header `stop`; leaving the loop elsewhere is an error"""
        r = dict(r)
        r.pop((stop, "force"), None)
        cfg = f.cfg
        save = cfg.ipdom
        # restrict: post-dominators inside the loop body (header = exit)
        ip = self.body_ipdom(f, stop, body)
        cfg.ipdom = ip
        try:
            return self.region(f, s, r, b, prev, stop, side)
        finally:
            cfg.ipdom = save

    def body_ipdom(self, f, h, body):
        key = ("ip", h)
        c = getattr(f.cfg, "_bip", None)
        if c is None:
            c = f.cfg._bip = {}
        if h in c:
            return c[h]
        nodes = [b for b in f.cfg.rpo if b in body and b != h]
        succ = {b: [s for s in dict.fromkeys(f.blocks[b].succs) if s in body] for b in nodes}
        # post-dominance towards h (loops back edges inside body allowed)
        full = set(nodes) | {h}
        pd = {b: set(full) for b in nodes}
        pd[h] = {h}
        ch = True
        while ch:
            ch = False
            for b in reversed(nodes):
                ss = [pd[s] for s in succ[b]]
                new = set.intersection(*ss) if ss else set()
                new = new | {b}
                if new != pd[b]:
                    pd[b] = new
                    ch = True
        ip = dict(f.cfg.ipdom)
        for b in nodes:
            cand = pd[b] - {b}
            # immediate: the one post-dominated by all others
            best = None
            for x in cand:
                if all(y in pd[x] for y in cand):
                    best = x
            ip[b] = best if best is not None else h
        c[h] = ip
        return ip

    def phi_step(self, f, ph, h, body):
        steps = set()
        for pb, v in ph.x:
            if pb in body:
                s = self.step_of(f, v, ph.id)
                steps.add(s)
        if len(steps) == 1:
            return steps.pop()
        return None

    def ptr_step(self, f, ph, v, body):
        """elements by which a pointer advances at each iteration"""
        steps = set()
        for pb, w in ph.x:
            if pb in body:
                d = None
                for b in f.blocks:
                    for i in b.insts:
                        if isinstance(w, Local) and i.id == w.id and i.op == "getelementptr" and isinstance(i.ops[0], Local) and i.ops[0].id == ph.id and all(isinstance(o, Const) and o.kind == "int" for o in i.ops[1:]):
                            x = self.gep(i.x, v, [ic(o.v) for o in i.ops[1:]])
                            d = icval(isub(x.idx[0], v.idx[0]))
                steps.add(d)
        return steps.pop() if len(steps) == 1 else None

    def step_of(self, f, v, pid):
        if not isinstance(v, Local):
            return None
        if v.id == pid:
            return None
        for b in f.blocks:
            for i in b.insts:
                if i.id == v.id:
                    if i.op in ("add", "sub") and isinstance(i.ops[0], Local) and i.ops[0].id == pid and isinstance(i.ops[1], Const) and i.ops[1].kind == "int":
                        return i.ops[1].v if i.op == "add" else -i.ops[1].v
                    return None
        return None

    def interval(self, st, c, t):
        """c(t) holds for t in [0,n): return n (Int term) when c is (upward) monotone in t"""
        if c.op == "le0":
            l = c.args[0]
            k = dict(l.args[1]).get(t, 0)
            rest = isub(l, iscale(iatom(t), k))
            if k <= 0 or any(a is t for a in atoms(rest)):
                return None
            # k*t + rest <= 0  -> t <= floor(-rest/k)
            if k == 1:
                return iadd(iscale(rest, -1), ic(1))
            x = iscale(rest, -1)  # t <= x/k, x may be negative => floor
            q = self.floordiv(x, k)
            return iadd(q, ic(1))
        if c.op == "not" and c.args[0].op == "eq0":
            l = c.args[0].args[0]
            k = dict(l.args[1]).get(t, 0)
            if k == 0:
                return None
            rest = isub(l, iscale(iatom(t), k))
            if rest.args[0] % k or any(x % k for _, x in rest.args[1]):
                return None
            n = iexact(iscale(rest, -1 if k > 0 else 1), abs(k))
            if self.decide(st, ile(ic(0), n)) is True:
                return n
            return None
        return None

    def qpush(self, st, sid, entries, vs, cond, st0):
        ch = self.chain(st, sid)
        # compact overlapping pt entries on the same idx: evaluate last-writer-wins through ordering (later entries pushed last)
        for e in entries:
            if e[0] == "pt":
                ch = Chain(ch, ("q", tuple(vs), band(cond, e[1]), e[2], e[3]))
            else:
                ch = Chain(ch, ("q", tuple(vs) + tuple(e[1]), band(cond, e[2]), e[3], e[4]))
        return ch

    # ------------------------------------------------------------ kernels
    def parallel_for(self, st, name, lo, hi, fn, fobj):
        """fn: FPtr trampoline(const void*, i64 i0..i7)"""
        its = []
        ivs = []
        for d in range(len(lo)):
            v = iv(fresh_name("it"))
            ivs.append(v)
            its.append(v.args[1][0][0])
        rng = band(*[x for v, a, b in zip(ivs, lo, hi) for x in (ile(a, v), ilt(v, b))])
        if rng is FALSE:
            return st
        if self.in_kernel:
            raise Unsupported("nested parallel_for")
        s = st.copy()
        s.pc = st.pc + tuple(x for v, a, b in zip(ivs, lo, hi) for x in (ile(a, v), ilt(v, b)) if x is not TRUE)
        if not self.feasible(st, rng):
            return st
        log = []
        kl, kb, lp = self.klog, self.kbase, self.loop_poison
        self.klog = log
        self.kbase = len(st.pc)
        premem = dict(st.mem)
        self.loop_poison = {}
        self.in_kernel = True
        try:
            args = [fobj] + ivs + [ic(0)] * (6 - len(ivs))
            outs = self.invoke(fn, args, None, s)
        finally:
            self.klog, self.kbase, self.loop_poison = kl, kb, lp
            self.in_kernel = False
        if kl is not None:
            og = self.kguard(st)
            for k, g, sid, idx in log:
                kl.append((k, band(og, g, rng), sid, idx))
        rets = [o for o in outs if o[0] == "ret"]
        for o in outs:
            if o[0] == "throw":
                self.oblige("kernel '%s' does not throw" % name, o[1], FALSE, "throw")
        if not rets:
            raise Unsupported("kernel never returns")
        se = rets[0][1]
        for o, m in se.mem.items():
            m0 = premem.get(o)
            if m0 is not None and m0 is not m:
                for k, cell in m.items():
                    if k not in m0 or not same(m0[k][1], cell[1]):
                        self.oblige("kernel '%s' does not write shared host memory (%s)" % (name, self.objname.get(o)), st, FALSE, "race")
        res = st.copy()
        wrote = {}
        for sid, ch in se.ch.items():
            c0 = st.ch.get(sid)
            if c0 is ch:
                continue
            es = self.flat(ch, c0, TRUE)
            if not es:
                continue
            wrote[sid] = es
            res.ch[sid] = self.qpush(res, sid, es, its, rng, st)
        if self.opts["race"]:
            self.check_race(st, log, its, rng, "kernel '%s'" % name)
        self.kernels.append((name, lo, hi, {self.storages[s].name: len(e) for s, e in wrote.items()}))
        return res

    def check_race(self, st, log, its, rng, what, dep_only=False):
        """no two distinct iterations touch the same element with at least one write"""
        ws, rs = {}, {}
        for k, g, sid, idx in log:
            (ws if k == "w" else rs).setdefault(sid, {}).setdefault(idx, []).append(g)
        ren = {}
        its2 = []
        for v in its:
            n = iv(fresh_name("ot"))
            ren[v] = n
            its2.append(n)
        itset = set(its)
        done = set()
        for sid, wd in ws.items():
            sto = self.storages[sid]
            allacc = {}
            for idx, gs in wd.items():
                allacc.setdefault(idx, []).extend(gs)
            for idx, gs in rs.get(sid, {}).items():
                allacc.setdefault(idx, []).extend(gs)
            for widx, wg in wd.items():
                for aidx, ag in allacc.items():
                    key = (sid, widx, aidx)
                    if key in done:
                        continue
                    done.add(key)
                    # rename every variable private to an iteration (its and inner it!/ot! vars)
                    memo = {}
                    inner = {}
                    for l in aidx:
                        for a in atoms(l):
                            if a.op == "iv" and a not in ren and a.args[0].startswith("it!") and a not in st_vars(st, self):
                                inner[a] = iv(fresh_name("ot"))
                    mm = dict(ren)
                    mm.update(inner)
                    a2 = [subst(l, mm, memo) for l in aidx]
                    conds = []
                    contra = False
                    for x, y in zip(widx, a2):
                        q = ieq(x, y)
                        if q is FALSE:
                            contra = True
                            break
                        conds.append(q)
                    if contra:
                        continue
                    # syntactic: equalities force it==ot for every it
                    forced = set()
                    for q in conds:
                        if q.op == "eq0":
                            at = q.args[0].args
                            if at[0] == 0 and len(at[1]) == 2:
                                (p, kp), (r, kr) = at[1]
                                if kp == -kr and abs(kp) == 1:
                                    for v in its:
                                        o = ren[v].args[1][0][0]
                                        if {p, r} == {v, o}:
                                            forced.add(v)
                    if forced == itset:
                        self.auto_ok += 1
                        continue
                    g1 = bor(*wg)
                    g2 = subst(bor(*ag), mm, memo)
                    r2 = subst(rng, mm, memo)
                    if dep_only and aidx not in wd:
                        # iterations in order: a later iteration must not read what an earlier one wrote
                        diff = ilt(iatom(its[0]), ren[its[0]])
                    else:
                        diff = bor(*[bnot(ieq(iatom(v), ren[v])) for v in its])
                    hy = [x for x in (rng, r2, g1, g2, diff) + tuple(conds)]
                    s2 = st.copy()
                    fl = []
                    for x in hy:
                        fl.extend(x.args if x.op == "and" else (x,))
                    s2.pc = st.pc + tuple(fl)
                    if self.implied(frozenset(self.int_pc(s2.pc)), FALSE):
                        self.auto_ok += 1
                        continue
                    if dep_only:
                        raise LoopCarried(what, 0)
                    self.oblige("%s: distinct iterations do not conflict on array '%s'" % (what, sto.name), s2, FALSE, "race")

    # ------------------------------------------------------------ loop contracts
    def find_contract(self, f, h):
        for lc in self.loop_contracts:
            if lc["match"] in f.name and self.is_real_loop(f, h):
                return lc
        return None

    def is_real_loop(self, f, h):
        return any(p.ty.kind == "float" for p in f.blocks[h].phis)

    def contract_loop(self, f, st, regs, h, side, lc):
        """Houdini over real phis: candidate invariant lc['inv'](engine, st, value)->Bool, for each real phi"""
        cfg = f.cfg
        body = cfg.loops[h]
        blk = f.blocks[h]
        real = [p for p in blk.phis if p.ty.kind == "float"]
        ints = [p for p in blk.phis if p.ty.kind == "int"]
        if lc.get("active", {}).get((f.name, h)):
            return None
        import prove

        pure = all(i.op in self.PURE_OPS or (i.op == "call" and self.pure_call(i)) for b in body for i in f.blocks[b].insts)
        memo = None
        if pure:
            # the loop is a deterministic function of its live-in values: the same live-ins give the same final state
            inner = {i.id for b in body for i in list(f.blocks[b].insts) + list(f.blocks[b].phis)}
            key = [f.name, h]
            for p in blk.phis:
                key.append((p.id, regs.get(p.id)))
            for b in sorted(body):
                for i in f.blocks[b].insts:
                    for o in i.ops:
                        if isinstance(o, Local) and o.id not in inner:
                            key.append((o.id, regs.get(o.id)))
            if all(isinstance(x, (str, int)) or isinstance(x[1], T) for x in key):
                memo = lc.setdefault("memo", {}).setdefault(tuple(key), {})

        def havoc(p, kind):
            if memo is None:
                return self.fresh("loop", kind)
            if p.id not in memo:
                memo[p.id] = self.fresh("loop", kind)
            return memo[p.id]

        cand = []
        for p in real:
            for k, inv in enumerate(lc["invs"]):
                g = self.apply_inv(inv, st, regs[p.id])
                if prove.quick(self, st.pc, g):
                    cand.append((p, k))
        while True:
            s = st.copy()
            r = dict(regs)
            for p in real:
                r[p.id] = havoc(p, "R")
            if memo is None:
                cnt = self.fresh("loopn", "I")
            else:
                cnt = memo.setdefault("count", None) or self.fresh("loopn", "I")
                memo["count"] = cnt
            s.pc += (ile(ic(0), cnt),)
            self.loop_count = cnt
            for p in ints:
                step = self.phi_step(f, p, h, body)
                if step is not None and isinstance(regs[p.id], T):
                    r[p.id] = iadd(regs[p.id], iscale(cnt, step))
                    continue
                nv = havoc(p, "I")
                r[p.id] = nv
                if step is not None and isinstance(regs[p.id], T):
                    s.pc += ((ile(regs[p.id], nv) if step > 0 else ile(nv, regs[p.id])),)
            for p, k in cand:
                s.pc += (self.apply_inv(lc["invs"][k], s, r[p.id]),)
            nobl = len(self.obls)
            lc.setdefault("active", {})[(f.name, h)] = True
            sd = []
            try:
                # run one arbitrary iteration: collect back-edge arrivals and exit arrivals
                backs, exits = [], []
                self.one_iter(f, s.copy(), dict(r), h, body, backs, exits, sd)
            finally:
                lc["active"][(f.name, h)] = False
            drop = []
            for p, k in cand:
                for sb, rb in backs:
                    g = self.apply_inv(lc["invs"][k], sb, rb[p.id])
                    if not prove.quick(self, sb.pc, g):
                        drop.append((p, k))
                        break
            if not drop:
                break
            del self.obls[nobl:]
            cand = [c for c in cand if c not in drop]
        self.loop_contract_used.append((f.name, [(p.id, k) for p, k in cand]))
        side.extend(sd)
        # merge exits by continuing each to the loop's common exit post-dominator
        if not exits:
            return "dead"
        tgt = cfg.ipdom.get(h)
        while tgt in body:
            tgt = cfg.ipdom.get(tgt)
        res = []
        for sx, rx, nb, pv in exits:
            x = self.region(f, sx, rx, nb, pv, tgt, side)
            if x is not None:
                res.append(x)
        if not res:
            return "dead"
        s, r = self.merge_many(res)
        return s, r, tgt, None, True

    PURE_OPS = ("fmul", "fadd", "fsub", "fdiv", "fneg", "fcmp", "icmp", "add", "sub", "mul", "and", "or", "xor", "select", "br", "phi", "zext", "sext", "trunc",
                "freeze", "sitofp", "uitofp", "ret")
    PURE_FUNCS = ("fabs", "sqrt", "__vc_isnan", "__vc_isfinite", "pow", "fmax", "fmin")

    def pure_call(self, i, depth=0):
        cv = i.x[0]
        if not (isinstance(cv, Const) and cv.kind == "func") or depth > 4:
            return False
        n = cv.v
        if n in self.PURE_FUNCS or n.startswith(("llvm.fabs", "llvm.sqrt", "llvm.minnum", "llvm.maxnum", "llvm.pow", "llvm.is.fpclass", "llvm.fmuladd", "llvm.lifetime")):
            return True
        g = self.func(n)
        if g is None:
            return False
        return all(x.op in self.PURE_OPS or (x.op == "call" and self.pure_call(x, depth + 1)) for b in g.blocks for x in b.insts)

    def one_iter(self, f, s, r, h, body, backs, exits, side, b=None, prev=None, depth=0):
        """path-enumerate one iteration of the loop (no merging)"""
        cfg = f.cfg
        b = h if b is None else b
        first = b == h
        while True:
            if not first:
                self.phis(f, s, r, b, prev)
                if b == h:
                    backs.append((s, r))
                    return
            first = False
            if b not in body:
                raise Unsupported("one_iter")
            blk = f.blocks[b]
            for ins in blk.insts[:-1]:
                if ins.op in ("call",):
                    outs = self.do_call(f, ins, s, r)
                    nxt = [o for o in outs if o[0] == "ret"]
                    side.extend(o for o in outs if o[0] != "ret")
                    if not nxt:
                        return
                    s = nxt[0][1]
                    if ins.ty.kind != "void":
                        r[ins.id] = nxt[0][2]
                elif ins.op in ("invoke", "landingpad"):
                    raise Unsupported("invoke in contract loop")
                else:
                    self.inst(f, ins, s, r)
            t = blk.insts[-1]
            if t.op != "br":
                raise Unsupported("terminator in contract loop")
            js = [(TRUE, t.x[0])] if not t.ops else self.br(s, self.val(t.ops[0], r, s), t.x[0], t.x[1])
            for c, nb in js[1:]:
                s2 = s.copy()
                s2.pc = s.pc + (c,)
                if nb not in body:
                    exits.append((s2, dict(r), nb, b))
                else:
                    self.one_iter(f, s2, dict(r), h, body, backs, exits, side, nb, b, depth + 1) if nb != h else self._back(f, s2, dict(r), nb, b, backs)
            c, nb = js[0]
            if c is not TRUE:
                s.pc = s.pc + (c,)
            if nb not in body:
                exits.append((s, r, nb, b))
                return
            prev, b = b, nb

    def _back(self, f, s, r, h, prev, backs):
        self.phis(f, s, r, h, prev)
        backs.append((s, r))

    def apply_inv(self, inv, st, v):
        if callable(inv):
            return inv(self, st, v)
        # inv is (FPtr, ctxptr): run the C++ predicate
        fn, ctx = inv
        s = st.copy()
        kl = self.klog
        self.klog = None
        outs = self.invoke(fn, [ctx, v], None, s)
        self.klog = kl
        r = [o for o in outs if o[0] == "ret"][0][2]
        return r if r.sort == "B" else bnot(ieq(r, ic(0)))


class LoopCarried(Unsupported):
    pass


class _D:
    kind = "float"
    bits = 64
    size = 8


_DBL = _D()


def st_exc(v):
    # value of a landingpad: (('exc', exc), sel)
    if isinstance(v, tuple) and v and isinstance(v[0], tuple):
        return v[0][1]
    return v


def rest_atoms(l):
    return set(atoms(l))


def st_vars(st, eng):
    key = st.pc
    r = eng.ghost.get(("pcv", key))
    if r is None:
        r = set()
        for c in st.pc:
            r |= set(x for x in atoms(c) if x.op == "iv")
        eng.ghost[("pcv", key)] = r
    return r
