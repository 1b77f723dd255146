"""Contracts of everything outside /repo: harness language, Kokkos stand-in, libc / libstdc++ / libm, MPI."""
import math
import re
from fractions import Fraction as Fr

from symex import *
from symex import Chain, Ptr, VPtr, FPtr, IPtr, UNDEF, NULL, Unsupported, State
from terms import *
import llvmir

MODELS = {}
CONTRACTS_USED = set()


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f

    return d


class _I:
    def __init__(self, bits):
        self.kind, self.bits, self.size = "int", bits, bits // 8


class _Dt:
    kind, bits, size = "float", 64, 8


class _Pt:
    kind, bits, size = "ptr", 64, 8


I8, I32, I64, F64, PTR = _I(8), _I(32), _I(64), _Dt(), _Pt()


class DPtr:
    """address of the first element of a (contiguous) view"""
    __slots__ = ("h",)

    def __init__(self, h):
        self.h = h

    def __repr__(self):
        return "data(%s)" % (self.h,)


class OStr:
    """opaque bytes of an arbitrary string input"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


def addpc(st, *cs):
    for c in cs:
        if c.op == "and":
            for x in c.args:
                if x not in st.pc:
                    st.pc = st.pc + (x,)
        elif c is not TRUE and c not in st.pc:
            st.pc = st.pc + (c,)


def tobool(v):
    if v.sort == "I":
        return bnot(ieq(v, ic(0)))
    return v


def ptr_str(e, st, p):
    return e.cstr(st, p)


def uniq(e, name):
    n = e.names.get(name, 0)
    e.names[name] = n + 1
    return name if n == 0 else "%s#%d" % (name, n + 1)


# ---------------------------------------------------------------- harness language
@model("vc_real")
def _(e, st, a, ins):
    n = uniq(e, e.cstr(st, a[0]))
    t = rv("in:" + n)
    e.inputs[n] = ("real", t)
    return t


@model("vc_choose")
def _(e, st, a, ins):
    n = uniq(e, e.cstr(st, a[0]))
    t = rv("in:" + n)
    e.inputs[n] = ("real", t)
    addpc(st, rle(a[1], t), rle(t, a[2]))
    return t


@model("vc_int")
def _(e, st, a, ins):
    n = uniq(e, e.cstr(st, a[0]))
    if icval(a[1]) is not None and icval(a[1]) == icval(a[2]):
        return a[1]
    t = iv("in:" + n)
    e.inputs[n] = ("int", t)
    addpc(st, ile(a[1], t), ile(t, a[2]))
    return t


@model("vc_bool")
def _(e, st, a, ins):
    n = uniq(e, e.cstr(st, a[0]))
    t = bv("in:" + n)
    e.inputs[n] = ("bool", t)
    return t


@model("vc_assume")
def _(e, st, a, ins):
    c = tobool(a[0])
    if c is FALSE or e.decide(st, c) is False:
        return []
    addpc(st, c)
    return UNDEF


@model("vc_assert")
def _(e, st, a, ins):
    e.oblige(e.cstr(st, a[0]), st, tobool(a[1]), "assert")
    return UNDEF


@model("vc_assert_eq")
def _(e, st, a, ins):
    x, y = a[1], a[2]
    if x is UNDEF or y is UNDEF:
        e.oblige(e.cstr(st, a[0]), st, FALSE, "assert")
        return UNDEF
    e.oblige(e.cstr(st, a[0]), st, req(x, y), "assert")
    return UNDEF


@model("vc_assert_le")
def _(e, st, a, ins):
    e.oblige(e.cstr(st, a[0]), st, rle(a[1], a[2]), "assert")
    return UNDEF


@model("vc_cover")
def _(e, st, a, ins):
    e.covers.append((e.cstr(st, a[0]), st.pc))
    return UNDEF


@model("vc_uf")
def _(e, st, a, ins):
    n = icval(a[1])
    nm = e.cstr(st, a[0])
    args = tuple(a[2:2 + n])
    t = app("F:" + nm, args, "R")
    e.app_facts(t)
    return t


@model("vc_uf_contract")
def _(e, st, a, ins):
    # (name, flags): 1 positive 2 non-negative 4 in [0,1]
    e.ufc[e.cstr(st, a[0])] = icval(a[1])
    return UNDEF


@model("vc_view")
def _(e, st, a, ins):
    nm = uniq(e, e.cstr(st, a[0]))
    rank, kind, flags = icval(a[1]), icval(a[2]), icval(a[3])
    ext = tuple(a[4:4 + rank])
    sort = {0: "R", 1: "I", 2: "I", 3: "B"}[kind]
    sto = e.new_storage(nm, rank, ext, sort, "sym")
    sto.input = True
    sto.kind = kind
    e.sto_by_name[nm] = sto
    if flags & 1:
        sto.props.append(lambda en, s, at: en.fact(at, rlt(ZERO, at)))
    if flags & 2:
        sto.props.append(lambda en, s, at: en.fact(at, rle(ZERO, at)))
    if flags & 4:
        sto.props.append(lambda en, s, at: (en.fact(at, rle(ZERO, at)), en.fact(at, rle(at, ONE))))
    if flags & 8:
        seen = []

        def inc(en, s, at):
            i = at.args[1]
            for b in seen:
                j = b.args[1]
                f1 = bor(bnot(ilt(i, j)), rlt(at, b))
                f2 = bor(bnot(ilt(j, i)), rlt(b, at))
                for x in (at, b):
                    en.fact(x, f1)
                    en.fact(x, f2)
            seen.append(at)

        sto.props.append(inc)
    addpc(st, *[ile(ic(0), x) for x in ext])
    h = e.new_view(sto, tuple(("a", d, ic(0)) for d in range(rank)), ext)
    return ic(h)


@model("vc_focus")
def _(e, st, a, ins):
    r = icval(a[0])
    e.focus.append(tuple(a[1:1 + r]))
    return UNDEF


@model("vc_use_contract")
def _(e, st, a, ins):
    e.fun_contracts.append((e.cstr(st, a[0]), (a[2], a[1])))
    return UNDEF


@model("vc_loop_count")
def _(e, st, a, ins):
    return e.loop_count


@model("vc_loop_contract")
def _(e, st, a, ins):
    e.loop_contracts.append({"match": e.cstr(st, a[0]), "invs": [(a[2], a[1])]})
    return UNDEF


@model("vc_opt")
def _(e, st, a, ins):
    n = e.cstr(st, a[0])
    old = e.opts.get(n, 0)
    v = icval(a[1])
    e.opts[n] = v
    return ic(int(old) if old is not None else 0)


@model("vc_native")
def _(e, st, a, ins):
    return ic(0)


@model("vc_reduce_count")
def _(e, st, a, ins):
    return ic(len(e.reduces))


@model("vc_skolem")
def _(e, st, a, ins):
    # real-valued arbitrary constant determined by integer arguments
    raise Unsupported("skolem")


@model("vc_array_eq")
def _(e, st, a, ins):
    """(name, h1, h2): all elements equal, decided at an arbitrary index"""
    nm = e.cstr(st, a[0])
    (c1, v1), = e.handle(st, a[1])
    (c2, v2), = e.handle(st, a[2])
    ivs = [iv(fresh_name("ix")) for _ in v1.ext]
    s = st.copy()
    for d, (x, y) in enumerate(zip(v1.ext, v2.ext)):
        e.oblige(nm + " (extents)", st, ieq(x, y), "assert")
    addpc(s, *[c for i, x in zip(ivs, v1.ext) for c in (ile(ic(0), i), ilt(i, x))])
    t1 = e.vread(s, v1.sid, view_idx(v1, ivs))
    t2 = e.vread(s, v2.sid, view_idx(v2, ivs))
    e.oblige(nm, s, eq(t1, t2), "assert")
    return UNDEF


@model("vc_unchanged")
def _(e, st, a, ins):
    """(name, h): the array still holds its initial content everywhere"""
    nm = e.cstr(st, a[0])
    for c, v in e.handle(st, a[1]):
        sto = e.storages[v.sid]
        ivs = [iv(fresh_name("ix")) for _ in range(sto.rank)]
        s = st.copy()
        addpc(s, c, *[q for i, x in zip(ivs, sto.ext) for q in (ile(ic(0), i), ilt(i, x))])
        t1 = e.vread(s, v.sid, tuple(ivs))
        t2 = e.base(s, sto, tuple(ivs))
        e.oblige(nm, s, eq(t1, t2), "assert")
    return UNDEF


@model("vc_init_at")
def _(e, st, a, ins):
    """(h, rank, i0..): initial content of an input view's storage at a view index"""
    (c, v), = e.handle(st, a[0])
    r = icval(a[1])
    return e.base(st, e.storages[v.sid], view_idx(v, a[2:2 + r]))


@model("vc_same_storage")
def _(e, st, a, ins):
    (c, v), = e.handle(st, a[0])
    (c2, v2), = e.handle(st, a[1])
    return bc(v.sid == v2.sid)


# ---------------------------------------------------------------- Kokkos contract
def larr(e, st, p, n, t=I64):
    out = []
    for k in range(n):
        out.append(e.load(st, Ptr(p.obj, iadd(p.off, ic(k * t.size))), t))
    return out


def view_idx(v, idx):
    return tuple(iadd(idx[dm[1]], dm[2]) if dm[0] == "a" else dm[1] for dm in v.dims)


@model("__vk_alloc")
def _(e, st, a, ins):
    lab = "view"
    try:
        lab = e.cstr(st, a[0])
    except Unsupported:
        pass
    rank, kind = icval(a[1]), icval(a[2])
    ext = tuple(a[3:3 + rank])
    e.nalloc = getattr(e, "nalloc", 0) + 1
    sort = {0: "R", 1: "I", 2: "I", 3: "B"}[kind]
    sto = e.new_storage("%s@%d" % (lab, e.nalloc), rank, ext, sort, "zero")
    sto.label = lab
    if e.klog is not None and e.in_kernel:
        raise Unsupported("allocation in a kernel")
    for d, x in enumerate(ext):
        g = ile(ic(0), x)
        if e.decide(st, g) is not True:
            e.oblige("allocated extent is not negative (%s, %d)" % (lab, d), st, g, "bounds")
    return ic(e.new_view(sto, tuple(("a", d, ic(0)) for d in range(rank)), ext))


@model("__vk_ref")
def _(e, st, a, ins):
    rank = icval(a[1])
    if rank < 0:
        return DPtr(a[0])
    return e.vref(st, a[0], tuple(a[2:2 + rank]))


@model("__vk_from_data")
def _(e, st, a, ins):
    def of(p):
        if isinstance(p, DPtr):
            return p.h
        if isinstance(p, IPtr):
            x, y = of(p.a), of(p.b)
            if icval(x) and icval(y):
                u, v = e.viewtab[icval(x)], e.viewtab[icval(y)]
                if u.sid == v.sid and u.ext == v.ext and u.dims == v.dims:
                    return x  # two handles of the same view
            return iite(p.c, x, y)
        return ic(0)
    return of(a[0])


@model("__vk_extent")
def _(e, st, a, ins):
    d = icval(a[1])
    if d is None:
        sp = e.split_ite(a[1])
        hs = e.handle(st, a[0])
        r = None
        n = max(v.rank for _, v in hs)
        for k in range(n):
            x = None
            for c, v in reversed(hs):
                y = v.ext[k] if k < v.rank else ic(1)
                x = y if x is None else iite(c, y, x)
            r = x if r is None else iite(ieq(a[1], ic(k)), x, r)
        return r
    x = None
    if icval(a[0]) == 0:
        return ic(0)
    for c, v in reversed(e.handle(st, a[0])):
        y = v.ext[d] if d < v.rank else ic(1)
        x = y if x is None else iite(c, y, x)
    return x


def subview1(e, st, c, v, kinds, A, B, name):
    newdim = {}
    ext = []
    for k, kd in enumerate(kinds):
        s2 = st
        if c is not TRUE:
            s2 = st.copy()
            s2.pc = st.pc + (c,)
        if kd == 1:
            e.bound(st, c, A[k], v.ext[k], name + " (subview)", k)
        elif kd == 0:
            newdim[k] = (len(ext), ic(0))
            ext.append(v.ext[k])
        else:
            g = band(ile(ic(0), A[k]), ile(A[k], B[k]), ile(B[k], v.ext[k]))
            if g is not TRUE and e.opts["bounds"]:
                if not e.implied(frozenset(e.int_pc(s2.pc)), g):
                    e.oblige("subview range within '%s' dimension %d" % (name, k), s2, g, "bounds")
                else:
                    e.auto_ok += 1
            newdim[k] = (len(ext), A[k])
            ext.append(isub(B[k], A[k]))
    dims = []
    for dm in v.dims:
        if dm[0] == "f":
            dims.append(dm)
        else:
            k = dm[1]
            if k in newdim:
                dims.append(("a", newdim[k][0], iadd(dm[2], newdim[k][1])))
            else:
                dims.append(("f", iadd(dm[2], A[k])))
    return e.new_view(e.storages[v.sid], tuple(dims), tuple(ext))


@model("__vk_subview")
def _(e, st, a, ins):
    n = icval(a[1])
    kinds = [icval(x) for x in larr(e, st, a[2], n, I32)]
    A = larr(e, st, a[3], n)
    B = larr(e, st, a[4], n)
    key = None
    r = None
    for c, v in reversed(e.handle(st, a[0])):
        if v.rank != n:
            raise Unsupported("subview rank")
        h = ic(subview1(e, st, c, v, kinds, A, B, e.storages[v.sid].name))
        r = h if r is None else iite(c, h, r)
    return r


def copy_view(e, st, vd, vs, what):
    ivs = [iv(fresh_name("it")) for _ in vd.ext]
    its = [x.args[1][0][0] for x in ivs]
    for d, (x, y) in enumerate(zip(vd.ext, vs.ext)):
        g = ieq(x, y)
        if e.decide(st, g) is not True:
            e.oblige("deep_copy between arrays of equal extents (%s <- %s, dimension %d)" % (e.storages[vd.sid].name, e.storages[vs.sid].name, d), st, g, "bounds")
    rng = band(*[q for i, x in zip(ivs, vd.ext) for q in (ile(ic(0), i), ilt(i, x))])
    s = st.copy()
    addpc(s, rng)
    v = e.vread(s, vs.sid, view_idx(vs, ivs))
    log_access(e, st, "r", rng, vs.sid, view_idx(vs, ivs))
    log_access(e, st, "w", rng, vd.sid, view_idx(vd, ivs))
    di = view_idx(vd, ivs)
    ch = e.chain(st, vd.sid)
    if not its:
        st.ch[vd.sid] = Chain(ch, ("pt", TRUE, di, v))
    else:
        st.ch[vd.sid] = Chain(ch, ("q", tuple(its), rng, di, v))


def log_access(e, st, k, rng, sid, idx):
    if e.klog is not None:
        e.klog.append((k, band(e.kguard(st), rng), sid, idx))


@model("__vk_deep_copy")
def _(e, st, a, ins):
    ds, ss = e.handle(st, a[0]), e.handle(st, a[1])
    if len(ds) != 1 or len(ss) != 1:
        raise Unsupported("deep_copy on symbolic views")
    vd, vs = ds[0][1], ss[0][1]
    if vd.sid == vs.sid:
        same_ = all(x == y for x, y in zip(vd.dims, vs.dims))
        if same_ and all(x is y for x, y in zip(vd.ext, vs.ext)):
            return UNDEF
        e.overlaps.append((e.storages[vd.sid].name, st.pc))
    copy_view(e, st, vd, vs, "deep_copy")
    return UNDEF


@model("__vk_fill")
def _(e, st, a, ins):
    (c, vd), = e.handle(st, a[0])
    ivs = [iv(fresh_name("it")) for _ in vd.ext]
    its = tuple(x.args[1][0][0] for x in ivs)
    rng = band(*[q for i, x in zip(ivs, vd.ext) for q in (ile(ic(0), i), ilt(i, x))])
    v = a[1]
    s = e.storages[vd.sid].sort
    if s == "I":
        v = ic(int(rcval(v)))
    if s == "B":
        v = bc(rcval(v) != 0)
    log_access(e, st, "w", rng, vd.sid, view_idx(vd, ivs))
    ch = e.chain(st, vd.sid)
    st.ch[vd.sid] = Chain(ch, ("q", its, rng, view_idx(vd, ivs), v)) if its else Chain(ch, ("pt", TRUE, view_idx(vd, ivs), v))
    return UNDEF


def const_str(e, st, s):
    key = ("str", s)
    o = e.strs.get(key)
    if o is None:
        o = e.newobj("str:" + s, len(s) + 1)
        e.ginitmem[o] = {i: (1, ic(b if b < 128 else b - 256)) for i, b in enumerate(s.encode("latin1") + b"\0")}
        e.strs[key] = o
    return Ptr(o, ic(0))


@model("__vk_label")
def _(e, st, a, ins):
    if icval(a[0]) == 0:
        return const_str(e, st, "")
    (c, v), = e.handle(st, a[0])
    sto = e.storages[v.sid]
    return const_str(e, st, getattr(sto, "label", sto.name))


@model("__vk_parallel_for")
def _(e, st, a, ins):
    name = e.cstr(st, a[0])
    n = icval(a[1])
    lo, hi = larr(e, st, a[2], n), larr(e, st, a[3], n)
    return [("ret", e.parallel_for(st, name, lo, hi, a[5], a[4]), UNDEF)]


BIG = Fr(2) ** 1023 * (2 - Fr(1, 2 ** 52))


@model("__vk_reduce")
def _(e, st, a, ins):
    name = e.cstr(st, a[0])
    n = icval(a[1])
    lo, hi = larr(e, st, a[2], n), larr(e, st, a[3], n)
    nred = icval(a[6])
    ops = [icval(x) for x in larr(e, st, a[7], nred, I32)]
    if e.in_kernel:
        raise Unsupported("reduction inside a kernel")
    ivs = [iv(fresh_name("it")) for _ in range(n)]
    its = [x.args[1][0][0] for x in ivs]
    rng = band(*[x for v, l, h in zip(ivs, lo, hi) for x in (ile(l, v), ilt(v, h))])

    def body(idx, accs, cond, obl):
        s = st.copy()
        addpc(s, *cond)
        o = e.newobj("acc")
        s.mem[o] = {8 * k: (8, x) for k, x in enumerate(accs)}
        kl, kb, ik = e.klog, e.kbase, e.in_kernel
        log = []
        e.klog, e.kbase, e.in_kernel = log, len(st.pc), True
        nob = len(e.obls)
        lp = e.loop_poison
        e.loop_poison = {}
        try:
            outs = e.invoke(a[5], [a[4], Ptr(o, ic(0))] + list(idx) + [ic(0)] * (6 - n), None, s)
        finally:
            e.klog, e.kbase, e.in_kernel = kl, kb, ik
            e.loop_poison = lp
        if not obl:
            del e.obls[nob:]
        rets = [x for x in outs if x[0] == "ret"]
        if len(rets) != 1 or len(outs) != 1:
            raise Unsupported("reduction body with exceptional exit")
        s2 = rets[0][1]
        for sid, ch in s2.ch.items():
            if st.ch.get(sid) is not ch:
                if e.flat(ch, st.ch.get(sid), TRUE):
                    e.oblige("reduction '%s' writes no array" % name, st, FALSE, "race")
        if kl is not None:
            for k, g, sid, ix in log:
                kl.append((k, band(e.kguard(st), g, rng), sid, ix))
        return [s2.mem[o][8 * k][1] for k in range(nred)], s2

    feas = e.feasible(st, rng)
    accs = [rv(fresh_name("acc")) for _ in range(nred)]
    after, s2 = body(ivs, accs, [rng], True)
    e.nred += 1
    scope = tuple(e.scope)
    for k in range(nred):
        op = ops[k]
        rname = "red!%d_%d" % (e.nred, k)
        if op == 0:
            s3 = st.copy()
            addpc(s3, rng)
            contrib = subst(after[k], {accs[k]: ZERO})
            e.oblige("reduction '%s' adds an accumulator-independent contribution" % name, s3, req(after[k], radd(accs[k], contrib)), "assert")
            R = app(rname, scope, "R")
            e.sums[rname] = (R, scope, lo, hi, its, contrib, st.pc)
            e.facted.add(R)
            link_sums(e, rname, st)
        else:
            b = rv(fresh_name("acc"))
            F = lambda x: subst(after[k], {accs[k]: x})
            s3 = st.copy()
            addpc(s3, rng)
            # what the body established on its way (divisors, assertions), as far as it does not depend on the accumulator
            addpc(s3, *[g for g in s2.pc if g not in st.pc and all(subst(g, {x: rv("acc?")}) is g for x in accs)])
            fa, fb = after[k], F(b)
            le = (lambda x, y: rle(x, y)) if op == 2 else (lambda x, y: rle(y, x))
            best = (lambda x, y: rite(rle(x, y), y, x)) if op == 2 else (lambda x, y: rite(rle(x, y), x, y))
            e.oblige("reduction '%s' body is a %s" % (name, "max" if op == 2 else "min"), s3, le(accs[k], fa), "assert")
            e.oblige("reduction '%s' body joins like a %s" % (name, "max" if op == 2 else "min"), s3, bor(req(fa, accs[k]), req(fb, best(b, fa))), "assert")
            R = app(rname, scope, "R") if scope else rv(rname)
            ident = rc(-BIG if op == 2 else BIG)
            # attained
            ws = [iv(fresh_name("wit")) for _ in range(n)]
            wr = band(*[x for v, l, h in zip(ws, lo, hi) for x in (ile(l, v), ilt(v, h))])
            aw, _s = body(ws, [ident if j == k else accs[j] for j in range(nred)], [wr], False)
            empty = bor(*[ile(h, l) for l, h in zip(lo, hi)])
            facts = [bor(band(empty, req(R, ident)), band(wr, req(R, aw[k])))]
            for fo in e.focus:
                if len(fo) == n:
                    fr = band(*[x for v, l, h in zip(fo, lo, hi) for x in (ile(l, v), ilt(v, h))])
                    if fr is FALSE or not e.feasible(st, fr):
                        continue
                    av, _s = body(fo, [R if j == k else accs[j] for j in range(nred)], [fr], False)
                    facts.append(bor(bnot(fr), req(av[k], R)))
                    facts += [bor(bnot(fr), g) for g in _s.pc if g not in st.pc and g is not fr and subst(g, {R: rv("acc?")}) is g]
            if scope:
                raise Unsupported("min/max reduction inside a loop")
            addpc(st, *facts)
            # extensionality: equal ranges and pointwise equal bodies give the same extremum
            for R2, op2, lo2, hi2, its2, f2 in e.exts:
                if op2 != op or len(lo2) != n:
                    continue
                m = {x: iatom(y) for x, y in zip(its2, its)}
                m[f2[0]] = accs[k]
                rngs = tuple(q for v, l, h in zip(ivs, lo, hi) for q in (ile(l, v), ilt(v, h)) if q is not TRUE)
                if all(prove_quick(e, st.pc, ieq(x, y)) for x, y in zip(tuple(lo) + tuple(hi), tuple(lo2) + tuple(hi2))) and prove_quick(e, st.pc + rngs, req(after[k], subst(f2[1], m))):
                    addpc(st, req(R, R2))
                    break
            e.exts.append((R, op, lo, hi, its, (accs[k], after[k])))
            e.reds.append((R, op, ws))
        e.store(st, Ptr(a[8].obj, iadd(a[8].off, ic(8 * k))), R, F64)
    e.kernels.append((name, lo, hi, {"reduce": nred}))
    return UNDEF


def prove_quick(e, pc, g):
    import prove

    return prove.quick(e, pc, g)


def link_sums(e, rname, st):
    """extensionality: two sums over equal ranges with pointwise equal summands are equal"""
    import prove

    R, scope, lo, hi, its, contrib, pc = e.sums[rname]
    for other, (R2, sc2, lo2, hi2, its2, con2, pc2) in list(e.sums.items()):
        if other == rname or len(lo2) != len(lo) or len(sc2) != len(scope):
            continue
        m = {}
        for x, y in zip(its2, its):
            m[x] = iatom(y)
        for x, y in zip(sc2, scope):
            m[x.args[1][0][0]] = y
        s = st.copy()
        rngs = [q for v, l, h in zip(its, lo, hi) for q in (ile(l, iatom(v)), ilt(iatom(v), h))]
        ok = all(prove.quick(e, st.pc, ieq(x, subst(y, m) if m else y)) for x, y in zip(tuple(lo) + tuple(hi), tuple(lo2) + tuple(hi2)))
        if not ok:
            continue
        c2 = subst(con2, m) if m else con2
        if prove.quick(e, st.pc + tuple(q for q in rngs if q is not TRUE), req(contrib, c2)):
            # link valid for all scope values (scope variables are universally quantified in the proof)
            e.sumlinks.append((rname, other))
            if not scope:
                e.fact(R, req(R, R2))
                e.fact(R2, req(R, R2))
            else:
                e.sum_alias[rname] = e.sum_alias.get(other, other)
                e.fact(R, req(R, app(e.sum_alias[rname], R.args[1:], "R")))
                break


@model("__vk_scan")
def _(e, st, a, ins):
    name = e.cstr(st, a[0])
    lo, hi = a[1], a[2]
    t = iv(fresh_name("it"))
    tat = t.args[1][0][0]
    rng = band(ile(lo, t), ilt(t, hi))
    e.nscan += 1
    P = lambda i: scan_atom(e, "scan!%d" % e.nscan, i)
    u = rv(fresh_name("acc"))
    res = []
    for final in (0, 1):
        s = st.copy()
        addpc(s, rng)
        o = e.newobj("acc")
        s.mem[o] = {0: (8, u if not final else P(t))}
        kl, kb, ik = e.klog, e.kbase, e.in_kernel
        log = []
        e.klog, e.kbase, e.in_kernel = log, len(st.pc), True
        try:
            outs = e.invoke(a[4], [a[3], t, Ptr(o, ic(0)), ic(final)], None, s)
        finally:
            e.klog, e.kbase, e.in_kernel = kl, kb, ik
        (k_, s2, v_), = outs
        res.append((s2, s2.mem[o][0][1], log))
        if not final:
            s3 = st.copy()
            addpc(s3, rng)
            contrib = subst(s2.mem[o][0][1], {u: ZERO})
            e.scans["scan!%d" % e.nscan] = (lo, hi, tat, contrib)
            e.oblige("scan '%s' adds an accumulator-independent contribution" % name, s3, req(s2.mem[o][0][1], radd(u, contrib)), "assert")
            for sid, ch in s2.ch.items():
                if st.ch.get(sid) is not ch and e.flat(ch, st.ch.get(sid), TRUE):
                    e.oblige("scan '%s' writes only in its final pass" % name, st, FALSE, "race")
    s2, fin, log = res[1]
    s3 = st.copy()
    addpc(s3, rng)
    e.oblige("scan '%s' final pass adds the same contribution" % name, s3, req(fin, radd(P(t), contrib)), "assert")
    out = st.copy()
    for sid, ch in s2.ch.items():
        c0 = st.ch.get(sid)
        if c0 is ch:
            continue
        es = e.flat(ch, c0, TRUE)
        if es:
            out.ch[sid] = e.qpush(out, sid, es, [tat], rng, st)
    if e.opts["race"]:
        e.check_race(st, log, [tat], rng, "scan '%s'" % name)
    e.kernels.append((name, (lo,), (hi,), {"scan": 1}))
    return [("ret", out, UNDEF)]


def scan_atom(e, nm, i):
    t = app(nm, (i,), "R")
    e.app_facts(t)
    return t


def scan_facts(e, a):
    lo, hi, tat, contrib = e.scans[a.args[0]]
    t = a.args[1]
    e.fact(a, bor(bnot(ieq(t, lo)), req(a, ZERO)))
    l = e.scan_seen.setdefault(a.args[0], [])
    for b in l:
        for x, y in ((a, b), (b, a)):
            d = isub(y.args[1], x.args[1])
            if icval(d) == 1:
                c = subst(contrib, {tat: x.args[1]})
                f = bor(bnot(band(ile(lo, x.args[1]), ilt(x.args[1], hi))), req(y, radd(x, c)))
                e.fact(a, f)
                e.fact(b, f)
    l.append(a)


@model("__vc_isfinite")
def _(e, st, a, ins):
    return e.isfinite(a[0])


@model("__vc_isnan")
def _(e, st, a, ins):
    return e.isnan(a[0])


@model("__vc_assert_fail")
def _(e, st, a, ins):
    e.oblige("assertion '%s' in the code holds" % e.cstr(st, a[0])[:80], st, FALSE, "code_assert")
    return []


# ---------------------------------------------------------------- math
def m_abs(x):
    if x.op == "rc":
        return rc(abs(x.args[0]))
    return rite(rle(ZERO, x), x, rneg(x))


def m_sqrt(e, x):
    v = rcval(x)
    if v is not None and v >= 0:
        n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if n * n == v.numerator and d * d == v.denominator:
            return rc(Fr(n, d))
    t = app("sqrt", (x,), "R")
    e.app_facts(t)
    return t


def m_pow(e, x, y):
    v = rcval(y)
    if v is not None:
        if v.denominator == 1 and abs(v.numerator) <= 16:
            return powi(x, v.numerator)
        if v == Fr(1, 2):
            return m_sqrt(e, x)
        if v == Fr(3, 2):
            return rmul(x, m_sqrt(e, x))
        if v.denominator in (2, 4, 8) and 0 < v < 4:
            t = x
            d = v.denominator
            while d > 1:
                t = m_sqrt(e, t)
                d //= 2
            return powi(t, v.numerator)
    if x is ONE:
        return ONE
    t = app("pow", (x, y), "R")
    e.app_facts(t)
    return t


def powi(x, n):
    if n == 0:
        return ONE
    if n < 0:
        return rdiv(ONE, powi(x, -n))
    r = x
    for _ in range(n - 1):
        r = rmul(r, x)
    return r


def m_trig(e, fn, x):
    if x is ZERO:
        return ZERO if fn == "sin" else ONE
    # rational multiples of pi
    k = None
    if x is PI:
        k = Fr(1)
    elif x.op == "rmul" and x.args[0].op == "rc" and x.args[1] is PI:
        k = x.args[0].args[0]
    if k is not None and (2 * k).denominator == 1:
        n = int(2 * k) % 4
        return rc([0, 1, 0, -1][n] if fn == "sin" else [1, 0, -1, 0][n])
    t = app(fn, (x,), "R")
    e.app_facts(t)
    return t


def lead_neg(t):
    """the sign a product or quotient carries"""
    if t.op == "rc":
        return t.args[0] < 0
    if t.op in ("rmul", "rdiv"):
        return lead_neg(t.args[0]) != lead_neg(t.args[1])
    return False


def m_un(fn):
    def f(e, st, a, ins):
        if fn == "exp" and a[0] is ZERO:
            return ONE
        if fn in ("tanh", "atan", "sinh", "asin", "tan", "cbrt", "erf", "expm1", "log1p") and a[0] is ZERO:
            return ZERO
        if fn in ("log", "log10", "log2") and a[0] is ONE:
            return ZERO
        if fn == "exp" and lead_neg(a[0]):  # exp(-x) is 1/exp(x)
            t = app(fn, (rneg(a[0]),), "R")
            e.app_facts(t)
            return rdiv(ONE, t)
        t = app(fn, (a[0],), "R")
        e.app_facts(t)
        return t

    return f


for fn in ("exp", "tanh", "log", "log10", "log2", "exp2", "atan", "tan", "asin", "acos", "sinh", "cosh", "cbrt", "erf", "expm1", "log1p", "round"):
    MODELS[fn] = m_un(fn)
for fn in ("atan2", "fmod"):
    MODELS[fn] = lambda e, st, a, ins, fn=fn: app(fn, (a[0], a[1]), "R")
for fn in ("sin", "cos"):
    MODELS[fn] = lambda e, st, a, ins, fn=fn: m_trig(e, fn, a[0])
MODELS["sqrt"] = lambda e, st, a, ins: m_sqrt(e, a[0])
MODELS["pow"] = lambda e, st, a, ins: m_pow(e, a[0], a[1])
MODELS["fabs"] = lambda e, st, a, ins: m_abs(a[0])
MODELS["fmax"] = lambda e, st, a, ins: rite(rle(a[0], a[1]), a[1], a[0])
MODELS["fmin"] = lambda e, st, a, ins: rite(rle(a[0], a[1]), a[0], a[1])
MODELS["hypot"] = lambda e, st, a, ins: m_sqrt(e, radd(rmul(a[0], a[0]), rmul(a[1], a[1])))


def m_floor(e, x):
    v = rcval(x)
    if v is not None:
        return rc(v.numerator // v.denominator)
    t = app("floor", (x,), "R")
    e.app_facts(t)
    return t


MODELS["floor"] = lambda e, st, a, ins: m_floor(e, a[0])
MODELS["ceil"] = lambda e, st, a, ins: rneg(m_floor(e, rneg(a[0])))
MODELS["copysign"] = lambda e, st, a, ins: rite(rle(ZERO, a[1]), m_abs(a[0]), rneg(m_abs(a[0])))


def math_facts(e, a):
    fn = a.args[0]
    x = a.args[1] if len(a.args) > 1 else None
    if fn == "sqrt":
        e.fact(a, rle(ZERO, a))
        e.fact(a, bor(rlt(x, ZERO), req(rmul(a, a), x)))
        e.fact(a, bor(rle(x, ZERO), rlt(ZERO, a)))
        pair_mono(e, a, "sqrt")
    elif fn in ("cos", "sin"):
        e.fact(a, rle(rc(-1), a))
        e.fact(a, rle(a, ONE))
        other = app("sin" if fn == "cos" else "cos", (x,), "R")
        e.fact(a, req(radd(rmul(a, a), rmul(other, other)), ONE))
        if fn == "sin":
            e.fact(a, bor(bnot(band(rlt(ZERO, x), rlt(x, PI))), rlt(ZERO, a)))
            e.fact(a, bor(bnot(band(rle(ZERO, x), rle(x, PI))), rle(ZERO, a)))
        else:
            l = e.monos.setdefault("cos", [])
            for b in l:
                y = b.args[1]
                for p, q in ((a, b), (b, a)):
                    f = bor(bnot(band(rle(ZERO, p.args[1]), rlt(p.args[1], q.args[1]), rle(q.args[1], PI))), rlt(q, p))
                    e.fact(a, f)
                    e.fact(b, f)
            l.append(a)
    elif fn in ("exp", "exp2"):
        e.fact(a, rlt(ZERO, a))
        pair_mono(e, a, fn)
    elif fn == "pow":
        e.fact(a, bor(rle(x, ZERO), rlt(ZERO, a)))
    elif fn == "tanh":
        e.fact(a, rlt(rc(-1), a))
        e.fact(a, rlt(a, ONE))
    elif fn == "floor":
        e.fact(a, rle(a, x))
        e.fact(a, rlt(x, radd(a, ONE)))
    elif fn.startswith("F:"):
        fl = e.ufc.get(fn[2:], 0)
        if fl & 1:
            e.fact(a, rlt(ZERO, a))
        if fl & 2:
            e.fact(a, rle(ZERO, a))
        if fl & 4:
            e.fact(a, rle(ZERO, a))
            e.fact(a, rle(a, ONE))
    elif fn.startswith("scan!"):
        scan_facts(e, a)
    elif fn == "allsum":
        e.allsum_seen.append(a)


def pair_mono(e, a, key):
    l = e.monos.setdefault(key, [])
    if len(l) > 12:
        return
    for b in l:
        for p, q in ((a, b), (b, a)):
            f = bor(bnot(band(rle(ZERO, p.args[1]), rlt(p.args[1], q.args[1]))), rlt(p, q)) if key == "sqrt" else bor(bnot(rlt(p.args[1], q.args[1])), rlt(p, q))
            e.fact(a, f)
            e.fact(b, f)
    l.append(a)


PI_FACTS = [rlt(rc(Fr(314159265, 10 ** 8)), PI), rlt(PI, rc(Fr(314159266, 10 ** 8)))]


# ---------------------------------------------------------------- libc / libstdc++
def m_new(e, st, a, ins):
    o = e.newobj("heap", icval(a[0]) if a and isinstance(a[0], T) else None)
    st.mem[o] = {}
    return Ptr(o, ic(0))


model("_Znwm", "_Znam", "malloc", "_ZnwmSt11align_val_t", "__cxa_allocate_exception", "_ZnamSt11align_val_t")(m_new)
model("_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "free", "__cxa_free_exception", "_ZdlPvmSt11align_val_t", "_ZdlPvSt11align_val_t", "__cxa_atexit",
      "__cxa_guard_release", "__cxa_guard_abort", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "puts", "printf", "fflush", "putchar",
      "fprintf", "_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_")(lambda e, st, a, ins: ic(0) if ins is not None and ins.ty.kind == "int" else UNDEF)


@model("calloc")
def _(e, st, a, ins):
    o = e.newobj("heap")
    st.mem[o] = {}
    setmem(e, st, Ptr(o, ic(0)), 0, icval(a[0]) * icval(a[1]))
    return Ptr(o, ic(0))


@model("__cxa_guard_acquire")
def _(e, st, a, ins):
    m = e.mem(st, a[0].obj)
    k = ("guard", icval(a[0].off))
    if k in st.mem:
        return ic(0)
    st.mem[k] = {}
    return ic(1)


EXC = {"_ZNSt13runtime_error": "_ZTISt13runtime_error", "_ZNSt11logic_error": "_ZTISt11logic_error", "_ZNSt12domain_error": "_ZTISt12domain_error",
       "_ZNSt16invalid_argument": "_ZTISt16invalid_argument", "_ZNSt12out_of_range": "_ZTISt12out_of_range", "_ZNSt12length_error": "_ZTISt12length_error",
       "_ZNSt11range_error": "_ZTISt11range_error", "_ZNSt14overflow_error": "_ZTISt14overflow_error", "_ZNSt15underflow_error": "_ZTISt15underflow_error",
       "_ZNSt9exception": "_ZTISt9exception", "_ZNSt9bad_alloc": "_ZTISt9bad_alloc", "_ZNKSt13runtime_error": 1, "_ZNKSt9exception": 1, "_ZNKSt11logic_error": 1}


@model("__cxa_throw")
def _(e, st, a, ins):
    ti = a[1]
    nm = e.objname.get(ti.obj, "?").lstrip("@") if isinstance(ti, Ptr) else "?"
    # record user-defined base classes: { vtable, name, base }
    reg_bases(e, st, nm)
    return [("throw", st, ("exc", nm, a[0]))]


def reg_bases(e, st, nm):
    if nm in e.STDEXC or nm.startswith("_ZTISt"):
        return
    ini, ty, c, m = e.ginit(nm)
    if ini is not None and ini.kind == "agg" and len(ini.v) >= 3:
        b = ini.v[2]
        if b.kind == "global":
            e.STDEXC[nm] = b.v
            reg_bases(e, st, b.v)


@model("__cxa_begin_catch")
def _(e, st, a, ins):
    x = a[0]
    ex = x[1] if isinstance(x, tuple) and x[0] == "exc" and isinstance(x[1], tuple) else x
    e.caught.append(ex)
    return ex[2] if isinstance(ex, tuple) else UNDEF


@model("__cxa_end_catch")
def _(e, st, a, ins):
    return UNDEF


@model("__cxa_rethrow")
def _(e, st, a, ins):
    return [("throw", st, e.caught[-1])]


@model("__cxa_get_exception_ptr")
def _(e, st, a, ins):
    return a[0]


@model("__clang_call_terminate", "_ZSt9terminatev", "abort", "__cxa_pure_virtual", "__cxa_call_unexpected")
def _(e, st, a, ins):
    e.oblige("the program does not terminate abnormally", st, FALSE, "throw")
    return []


@model("exit", "_exit")
def _(e, st, a, ins):
    return []


@model("__assert_fail")
def _(e, st, a, ins):
    e.oblige("assertion '%s' in the code holds" % e.cstr(st, a[0])[:80], st, FALSE, "code_assert")
    return []


@model("_ZSt21__glibcxx_assert_failPKciS0_S0_")
def _(e, st, a, ins):
    c = ""
    try:
        c = e.cstr(st, a[3])
    except Exception:
        pass
    e.oblige("standard library precondition %s" % c, st, FALSE, "bounds")
    return []


def thrower(ti):
    def f(e, st, a, ins):
        return [("throw", st, ("exc", ti, NULL))]

    return f


for nm, ti in {"_ZSt20__throw_length_errorPKc": "_ZTISt12length_error", "_ZSt19__throw_logic_errorPKc": "_ZTISt11logic_error",
               "_ZSt24__throw_out_of_range_fmtPKcz": "_ZTISt12out_of_range", "_ZSt20__throw_out_of_rangePKc": "_ZTISt12out_of_range",
               "_ZSt17__throw_bad_allocv": "_ZTISt9bad_alloc", "_ZSt28__throw_bad_array_new_lengthv": "_ZTISt9bad_alloc",
               "_ZSt24__throw_invalid_argumentPKc": "_ZTISt16invalid_argument", "_ZSt25__throw_bad_function_callv": "_ZTISt17bad_function_call",
               "_ZSt16__throw_bad_castv": "_ZTISt8bad_cast"}.items():
    MODELS[nm] = thrower(ti)


def chars(e, st, p, n):
    m = e.mem(st, p.obj)
    off = icval(p.off)
    out = []
    for i in range(n):
        b = e.byte(m, off + i)
        if b is None:
            return None
        out.append(b)
    return bytes(out)


@model("strlen")
def _(e, st, a, ins):
    if isinstance(a[0], IPtr):
        return vite(a[0].c, _strlen(e, st, a[0].a), _strlen(e, st, a[0].b))
    return _strlen(e, st, a[0])


def _strlen(e, st, p):
    return ic(len(e.cstr(st, p)))


def strprefix(e, key, lit):
    """the arbitrary text begins with lit"""
    t = bv("prefix(%s,'%s')" % (key, lit))
    l = e.strprefixes.setdefault(key, {})
    if lit not in l:
        ln = e.strlen_.get(key)
        whole = streq(e, ("opq", key), ("lit", lit))
        e.fact(t, bor(bnot(whole), t))
        if ln is not None:
            f = bor(bnot(t), ile(ic(len(lit)), ln))
            e.fact(t, f)
            e.fact(ln, f)
            e.fact(t, bor(bnot(t), bnot(ieq(ln, ic(len(lit)))), whole))
        for o, u in l.items():
            if o.startswith(lit):
                e.fact(t, bor(bnot(u), t)); e.fact(u, bor(bnot(u), t))
            elif lit.startswith(o):
                e.fact(t, bor(bnot(t), u)); e.fact(u, bor(bnot(t), u))
            else:
                e.fact(t, bnot(band(t, u))); e.fact(u, bnot(band(t, u)))
        l[lit] = t
        for w, x in e.strlit_text.get(key, {}).items():
            f = bor(bnot(x), t if w.startswith(lit) else bnot(t))
            e.fact(t, f)
            e.fact(x, f)
    return t


def cmpopq(e, st, a, b, n, what):
    """bytes of an arbitrary text compared with other bytes: only equality is known"""
    k = icval(n)
    if k == 0:
        return ic(0)
    if k is None:
        sp = e.split_ite(n)
        if sp:
            return iite(sp[0], cmpmem(e, st, a, b, sp[1], what), cmpmem(e, st, a, b, sp[2], what))
    if not ptr_is_opq(e, a):
        a, b = b, a
    key = e.ostr.get(a.obj) if isinstance(a, Ptr) and icval(a.off) == 0 else None
    r = iv(fresh_name("cmp"))
    if key is None:
        return r
    if isinstance(b, Ptr) and b.obj in e.ostr:
        if icval(b.off) == 0 and n is e.strlen_.get(key):
            # the whole of one against the beginning of the other
            same_len = ieq(e.strlen_[key], e.strlen_[e.ostr[b.obj]])
            e.fact(r, bor(bnot(same_len), beq(ieq(r, ic(0)), streq(e, ("opq", key), ("opq", e.ostr[b.obj])))))
        return r
    if k is None:
        try:
            y = e.cstr(st, b)
        except Exception:
            return r
        e.fact(r, bor(bnot(ieq(n, ic(len(y)))), beq(ieq(r, ic(0)), strprefix(e, key, y))))
        return r
    y = chars(e, st, b, k)
    if y is None:
        return r
    return iite(strprefix(e, key, y.decode("latin1")), ic(0), iite(bv(fresh_name("cmplt")), ic(-1), ic(1)))


def cmpmem(e, st, a, b, n, what):
    if isinstance(a, IPtr):
        return vite(a.c, cmpmem(e, st, a.a, b, n, what), cmpmem(e, st, a.b, b, n, what))
    if isinstance(b, IPtr):
        return vite(b.c, cmpmem(e, st, a, b.a, n, what), cmpmem(e, st, a, b.b, n, what))
    k = icval(n)
    if ptr_is_opq(e, a) or ptr_is_opq(e, b):
        return cmpopq(e, st, a, b, n, what)
    if k is None:
        sp = e.split_ite(n)
        if sp:
            return iite(sp[0], cmpmem(e, st, a, b, sp[1], what), cmpmem(e, st, a, b, sp[2], what))
        raise Unsupported("memcmp of symbolic length")
    if k == 0:
        return ic(0)
    x, y = chars(e, st, a, k), chars(e, st, b, k)
    if x is None or y is None:
        raise Unsupported("memcmp of symbolic bytes")
    return ic((x > y) - (x < y))


@model("memcmp", "bcmp")
def _(e, st, a, ins):
    return cmpmem(e, st, a[0], a[1], a[2], "memcmp")


@model("strcmp")
def _(e, st, a, ins):
    x, y = e.cstr(st, a[0]), e.cstr(st, a[1])
    return ic((x > y) - (x < y))


@model("memchr")
def _(e, st, a, ins):
    n = icval(a[2])
    x = chars(e, st, a[0], n)
    k = x.find(bytes([icval(a[1]) & 255]))
    return NULL if k < 0 else Ptr(a[0].obj, iadd(a[0].off, ic(k)))


def copymem(e, st, d, s, n):
    k = icval(n)
    if k == 0:
        return
    if isinstance(d, IPtr) or isinstance(s, IPtr):
        c = d.c if isinstance(d, IPtr) else s.c
        dd = e.decide(st, c)
        da, db = (d.a, d.b) if isinstance(d, IPtr) else (d, d)
        sa, sb = (s.a, s.b) if isinstance(s, IPtr) and s.c is c else (s, s)
        if dd is True:
            return copymem(e, st, da, sa, n)
        if dd is False:
            return copymem(e, st, db, sb, n)
        if isinstance(s, IPtr) and not isinstance(d, IPtr):
            s1, s2 = st.copy(), st.copy()
            copymem(e, s1, d, sa, n)
            copymem(e, s2, d, sb, n)
            st.mem[d.obj] = e.mergemem(c, s1.mem[d.obj], s2.mem[d.obj])
            return
        s1, s2 = st.copy(), st.copy()
        copymem(e, s1, da, sa, n)
        copymem(e, s2, db, sb, n)
        for q in (da, db):
            st.mem[q.obj] = e.mergemem(c, e.mem(s1, q.obj), e.mem(s2, q.obj))
        return
    if k is None:
        sp = e.split_ite(n)
        if sp:
            s1, s2 = st.copy(), st.copy()
            copymem(e, s1, d, s, sp[1])
            copymem(e, s2, d, s, sp[2])
            st.mem[d.obj] = e.mergemem(sp[0], e.mem(s1, d.obj), e.mem(s2, d.obj))
            return
        raise Unsupported("memcpy of symbolic length")
    if isinstance(d, VPtr) or isinstance(s, VPtr):
        if k == 8:
            e.store(st, d, e.load(st, s, F64), F64)
            return
        raise Unsupported("memcpy on array elements")
    if not isinstance(d, Ptr) or not isinstance(s, Ptr):
        raise Unsupported("memcpy %r <- %r" % (d, s))
    so, do = icval(s.off), icval(d.off)
    if so is None or do is None:
        # fixed-size element moved by a symbolic index: use typed loads
        if k % 8 == 0 and k <= 128:
            sp = e.split_ite(s.off) if so is None else None
            def kind(j):
                offs = e.cand_offsets(st, Ptr(s.obj, iadd(s.off, ic(j))), F64) if so is None else [so + j]
                mm = e.mem(st, s.obj)
                vs = [mm[o][1] for o in offs if o in mm]
                if any(isinstance(v, Ptr) for v in vs):
                    return PTR
                if any(isinstance(v, T) and v.sort == "R" for v in vs):
                    return F64
                return I64 if vs else F64

            for j in range(0, k, 8):
                ty = kind(j)
                v = e.load(st, Ptr(s.obj, iadd(s.off, ic(j))), ty)
                e.store(st, Ptr(d.obj, iadd(d.off, ic(j))), v, ty)
            return
        raise Unsupported("memcpy at a symbolic offset")
    src = e.mem(st, s.obj)
    cells = []
    for o, (sz, v) in src.items():
        if isinstance(o, int) and so <= o < so + k:
            if o + sz <= so + k:
                cells.append((o - so, sz, v))
            else:
                for i in range(so + k - o):
                    b = e.byte(src, o + i)
                    if b is not None:
                        cells.append((o - so + i, 1, e.sgn(b, 8)))
        elif isinstance(o, int) and o < so < o + sz:
            for i in range(so - o, min(sz, so + k - o)):
                b = e.byte(src, o + i)
                if b is not None:
                    cells.append((o + i - so, 1, e.sgn(b, 8)))
    m = dict(e.mem(st, d.obj))
    st.mem[d.obj] = m
    e.clear(m, do, k)
    for o, sz, v in cells:
        m[do + o] = (sz, v)


def setmem(e, st, d, v, n):
    if isinstance(d, IPtr):
        raise Unsupported("memset through merged pointer")
    if not isinstance(d, Ptr):
        raise Unsupported("memset on %r" % (d,))
    do = icval(d.off)
    m = dict(e.mem(st, d.obj))
    st.mem[d.obj] = m
    e.clear(m, do, n)
    i = 0
    b = v & 255
    while i < n:
        w = 8 if n - i >= 8 and (do + i) % 8 == 0 else 4 if n - i >= 4 and (do + i) % 4 == 0 else 1
        m[do + i] = (w, e.sgn(int.from_bytes(bytes([b]) * w, "little"), 8 * w))
        i += w


@model("memcpy", "memmove")
def _(e, st, a, ins):
    copymem(e, st, a[0], a[1], a[2])
    return a[0]


@model("memset")
def _(e, st, a, ins):
    setmem(e, st, a[0], icval(a[1]), icval(a[2]))
    return a[0]


def intrinsic(e, st, name, a, ins):
    p = name.split(".")
    k = p[1]
    if k in ("lifetime", "dbg", "assume", "donothing", "var", "experimental", "invariant", "stackrestore", "prefetch"):
        if k == "assume" and isinstance(a[0], T):
            pass
        return UNDEF
    if k == "stacksave":
        return NULL
    if k in ("memcpy", "memmove"):
        copymem(e, st, a[0], a[1], a[2])
        return UNDEF
    if k == "memset":
        n = icval(a[2])
        if n is None:
            raise Unsupported("memset of symbolic length")
        setmem(e, st, a[0], icval(a[1]), n)
        return UNDEF
    if k in ("fabs",):
        return m_abs(a[0])
    if k in ("sqrt",):
        return m_sqrt(e, a[0])
    if k in ("maxnum", "maximum"):
        return rite(rle(a[0], a[1]), a[1], a[0])
    if k in ("minnum", "minimum"):
        return rite(rle(a[0], a[1]), a[0], a[1])
    if k in ("fmuladd", "fma"):
        return radd(rmul(a[0], a[1]), a[2])
    if k == "pow":
        return m_pow(e, a[0], a[1])
    if k == "powi":
        return powi(a[0], icval(a[1]))
    if k in ("sin", "cos"):
        return m_trig(e, k, a[0])
    if k in ("exp", "log", "log10", "log2", "exp2", "round"):
        return MODELS[k](e, st, a, ins)
    if k == "floor":
        return m_floor(e, a[0])
    if k == "ceil":
        return rneg(m_floor(e, rneg(a[0])))
    if k == "copysign":
        return MODELS["copysign"](e, st, a, ins)
    if k in ("smax", "smin", "umax", "umin"):
        x, y = a[0], a[1]
        b = ins.ty.bits
        if k[0] == "u":
            x, y = e.unsg(x, b, st), e.unsg(y, b, st)
        c = ile(x, y) if k.endswith("min") else ile(y, x)
        d = e.decide(st, c)
        return x if d is True else y if d is False else iite(c, x, y)
    if k == "abs":
        c = ile(ic(0), a[0])
        d = e.decide(st, c)
        n = iscale(a[0], -1)
        return a[0] if d is True else n if d is False else iite(c, a[0], n)
    if k == "expect":
        return a[0]
    if k == "objectsize":
        return ic(-1)
    if k == "is":  # is.constant
        if p[2] == "constant":
            return FALSE
        if p[2] == "fpclass":
            m = icval(a[1])
            # 0x3 nan, 0x204 inf, rest finite
            if e.isfinite(a[0]) is TRUE:
                if m & 0x1F8 == 0x1F8:
                    return TRUE
                if m & 0x1F8 == 0:
                    return FALSE
            fin, nan = e.isfinite(a[0]), e.isnan(a[0])
            if m & 0x1F8 == 0x1F8 and m & 0x207 == 0:
                return fin
            if m == 3:
                return nan
            if m == 0x204:
                return band(bnot(fin), bnot(nan))
            raise Unsupported("is.fpclass %x" % m)
    if k == "eh":
        nm = e.objname.get(a[0].obj, "?").lstrip("@")
        return ic(e.typeid(nm))
    if k in ("trap", "ubsantrap"):
        e.oblige("no trap", st, FALSE, "code_assert")
        return []
    if k in ("uadd", "usub", "umul", "sadd", "ssub", "smul"):
        b = ins.ty.fields[0].bits
        x, y = a[0], a[1]
        if k[0] == "u":
            x, y = e.unsg(x, b, st), e.unsg(y, b, st)
            lo, hi = 0, (1 << b) - 1
        else:
            lo, hi = -(1 << (b - 1)), (1 << (b - 1)) - 1
        op = k[1:]
        r = iadd(x, y) if op == "add" else isub(x, y) if op == "sub" else imul(x, y)
        ov = bnot(band(ile(ic(lo), r), ile(r, ic(hi))))
        if k[0] == "u" and icval(r) is not None:
            r = e.sgn(icval(r) & hi, b)
        return (r, ov)
    if k in ("threadlocal",):
        return a[0]
    if k == "ctlz":
        n = icval(a[0])
        if n is not None:
            b = ins.ty.bits
            n &= (1 << b) - 1
            return ic(b - n.bit_length())
    raise Unsupported("intrinsic " + name)


# ---------------------------------------------------------------- pattern models
def strview(e, st, p, d=None, n=None):
    """std::string object -> ('lit', text) | ('opq', name) | ('ite', condition, view, view)"""
    if isinstance(p, IPtr):
        k = e.decide(st, p.c)
        if k is not None:
            return strview(e, st, p.a if k else p.b)
        return ("ite", p.c, strview(e, under(st, p.c), p.a), strview(e, under(st, bnot(p.c)), p.b))
    if d is None:
        d = e.load(st, p, PTR)
    if isinstance(d, IPtr):
        k = e.decide(st, d.c)
        if k is not None:
            return strview(e, st, p, d.a if k else d.b)
        n = e.load(st, Ptr(p.obj, iadd(p.off, ic(8))), I64)
        na = nb = None
        if isinstance(n, T) and n.op == "lin" and n.args[0] == 0 and len(n.args[1]) == 1 and n.args[1][0][1] == 1:
            n = n.args[1][0][0]
        if isinstance(n, T) and n.op == "iite":
            ka, kb = e.decide(under(st, d.c), n.args[0]), e.decide(under(st, bnot(d.c)), n.args[0])
            na = None if ka is None else n.args[1 if ka else 2]
            nb = None if kb is None else n.args[1 if kb else 2]
        return ("ite", d.c, strview(e, st, p, d.a, na), strview(e, st, p, d.b, nb))
    if isinstance(d, Ptr) and d.obj in e.ostr:
        return ("opq", e.ostr[d.obj])
    n = icval(n if n is not None else e.load(st, Ptr(p.obj, iadd(p.off, ic(8))), I64))
    if n is None:
        raise Unsupported("string of symbolic length")
    b = chars(e, st, d, n)
    if b is None:
        raise Unsupported("string of symbolic content")
    return ("lit", b.decode("latin1"))


def streq(e, x, y):
    if x[0] == "ite":
        return bor(band(x[1], streq(e, x[2], y)), band(bnot(x[1]), streq(e, x[3], y)))
    if y[0] == "ite":
        return streq(e, y, x)
    if x[0] == "lit" and y[0] == "lit":
        return bc(x[1] == y[1])
    if x[0] == "lit":
        x, y = y, x
    if y[0] == "opq":
        if x[1] == y[1]:
            return TRUE
        return bv("streq(%s,%s)" % tuple(sorted((x[1], y[1]))))
    key = x[1]
    ln = e.strlen_.get(key)
    if y[1] == "" and ln is not None:
        return ieq(ln, ic(0))
    t = bv("streq(%s,'%s')" % (key, y[1]))
    l = e.strlits.setdefault(key, [])
    if t not in l:
        for o in l:
            f = bnot(band(o, t))
            e.fact(t, f)
            e.fact(o, f)
        if ln is not None:
            f = bor(bnot(t), ieq(ln, ic(len(y[1]))))
            e.fact(t, f)
            e.fact(ln, f)
        l.append(t)
        e.strlit_text.setdefault(key, {})[y[1]] = t
        for w, x in e.strprefixes.get(key, {}).items():
            f = bor(bnot(t), x if y[1].startswith(w) else bnot(x))
            e.fact(t, f)
            e.fact(x, f)
    return t


@model("vc_string")
def _(e, st, a, ins):
    """(std::string* out, name): an arbitrary string"""
    n = uniq(e, e.cstr(st, a[1]))
    o = e.newobj("str:" + n)
    st.mem[o] = {0: (1, iv("ch:" + n))}
    e.ostr[o] = n
    ln = iv("len:" + n)
    e.strlen_[n] = ln
    addpc(st, ile(ic(0), ln), ile(ln, ic(1 << 20)))
    e.store(st, a[0], Ptr(o, ic(0)), PTR)
    e.store(st, Ptr(a[0].obj, iadd(a[0].off, ic(8))), ln, I64)
    e.inputs[n] = ("str", n)
    return UNDEF


def p_ostream(e, st, a, ins, name):
    if any("6vc_litEPK" in f for m in e.mods for f in m._raw):
        return None  # the contract streams of stub/io
    return a[0] if ins.ty.kind == "ptr" else UNDEF


def p_noop(e, st, a, ins, name):
    return UNDEF


def p_excctor(e, st, a, ins, name):
    """a standard exception object: its text is not modelled (what() gives an empty string), its virtual table is there"""
    if re.search(r"C[12]E", name) and isinstance(a[0], Ptr):
        if getattr(e, "excvt", None) is None:
            e.excvt = (e.newobj("exception vtable", 24), e.newobj("what", 1))
        vt, tx = e.excvt
        if vt not in st.mem:
            st.mem[vt] = {}
            st.mem[tx] = {}
            e.store(st, Ptr(vt, ic(16)), FPtr("__vc_what"), PTR)
            setmem(e, st, Ptr(tx, ic(0)), 0, 1)
        e.store(st, a[0], Ptr(vt, ic(0)), PTR)
    return UNDEF


@model("__vc_what")
def _(e, st, a, ins):
    return Ptr(e.excvt[1], ic(0))


def p_streq_cc(e, st, a, ins, name):
    return streq(e, strview(e, st, a[0]), ("lit", e.cstr(st, a[1])))


def p_streq(e, st, a, ins, name):
    return streq(e, strview(e, st, a[0]), strview(e, st, a[1]))


def p_strcmp(e, st, a, ins, name):
    """std::string::compare of whole texts: zero exactly when equal"""
    if not (any_opq(e, st, a[:1]) or (name.endswith("S4_") and any_opq(e, st, a[1:2]))):
        return None
    y = strview(e, st, a[1]) if name.endswith("S4_") else ("lit", e.cstr(st, a[1]))
    return iite(streq(e, strview(e, st, a[0]), y), ic(0), iite(bv(fresh_name("cmplt")), ic(-1), ic(1)))


def str_is_opq(e, st, p):
    try:
        d = e.load(st, p, PTR)
    except Exception:
        return False
    return ptr_is_opq(e, d)


def ptr_is_opq(e, d):
    if isinstance(d, IPtr):
        return ptr_is_opq(e, d.a) or ptr_is_opq(e, d.b)
    return isinstance(d, Ptr) and d.obj in e.ostr


def p_strcopy(e, st, a, ins, name):
    """std::string copy construction / assignment of an opaque string: share the immutable bytes"""
    if not str_is_opq(e, st, a[1]):
        return None
    d = e.load(st, a[1], PTR)
    if isinstance(d, IPtr) or isinstance(a[1], IPtr):
        strput(e, st, a[0], strview(e, st, a[1]))
        return a[0] if ins is not None and ins.ty.kind == "ptr" else UNDEF
    for k, t in ((0, PTR), (8, I64)):
        e.store(st, Ptr(a[0].obj, iadd(a[0].off, ic(k))), e.load(st, Ptr(a[1].obj, iadd(a[1].off, ic(k))), t), t)
    return a[0] if ins is not None and ins.ty.kind == "ptr" else UNDEF


def p_strdtor(e, st, a, ins, name):
    if str_is_opq(e, st, a[0]):
        return UNDEF
    return None


def opq_obj(e, st, n, ln=None):
    """(data pointer, length) of the opaque string named n"""
    o = e.ostr_by_name.get(n)
    if o is None or o not in st.mem:
        o = e.newobj("str:" + n)
        e.ostr[o] = n
        e.ostr_by_name[n] = o
    if o not in st.mem:
        st.mem[o] = {0: (1, iv("ch:" + n))}
    if n not in e.strlen_:
        e.strlen_[n] = iv("len:" + n) if ln is None else ln
        if ln is None:
            addpc(st, ile(ic(0), e.strlen_[n]), ile(e.strlen_[n], ic(1 << 20)))
    return Ptr(o, ic(0)), e.strlen_[n]


def opq_new(e, st, p, nm="text"):
    d, ln = opq_obj(e, st, uniq(e, "text:" + nm))
    e.store(st, p, d, PTR)
    e.store(st, Ptr(p.obj, iadd(p.off, ic(8))), ln, I64)


def strdata(e, st, v):
    """(data pointer, length) of a view"""
    if v[0] == "lit":
        o = e.newobj("lit:" + v[1])
        st.mem[o] = {k: (1, ic(ord(c) if ord(c) < 128 else ord(c) - 256)) for k, c in enumerate(v[1] + "\0")}
        return Ptr(o, ic(0)), ic(len(v[1]))
    if v[0] == "opq":
        return opq_obj(e, st, v[1])
    (da, la), (db, lb) = strdata(e, st, v[2]), strdata(e, st, v[3])
    return IPtr(v[1], da, db), ite(v[1], la, lb)


def strput(e, st, p, v):
    if v[0] == "lit" and len(v[1]) <= 15:
        # short texts live in the object itself
        buf = Ptr(p.obj, iadd(p.off, ic(16)))
        for k, ch in enumerate((v[1] if isinstance(v[1], str) else v[1].decode("latin1")) + "\0"):
            e.store(st, Ptr(p.obj, iadd(buf.off, ic(k))), ic(ord(ch)), I8)
        e.store(st, p, buf, PTR)
        e.store(st, Ptr(p.obj, iadd(p.off, ic(8))), ic(len(v[1])), I64)
        return
    d, ln = strdata(e, st, v)
    e.store(st, p, d, PTR)
    e.store(st, Ptr(p.obj, iadd(p.off, ic(8))), ln, I64)


def under(st, c):
    """the same memory where c holds"""
    s = st.copy()
    s.mem = st.mem
    addpc(s, c)
    return s


def strcat(e, st, x, y):
    """concatenation of two views: the same parts give the same string"""
    if x[0] == "ite":
        return ("ite", x[1], strcat(e, under(st, x[1]), x[2], y), strcat(e, under(st, bnot(x[1])), x[3], y))
    if y[0] == "ite":
        return ("ite", y[1], strcat(e, under(st, y[1]), x, y[2]), strcat(e, under(st, bnot(y[1])), x, y[3]))
    parts = []
    for v in (x, y):
        for q in (e.strparts.get(v[1], [v]) if v[0] == "opq" else [v]):
            if q[0] == "opq" and e.decide(st, ieq(e.strlen_[q[1]], ic(0))) is True:
                continue
            if q[0] == "lit" and q[1] == "":
                continue
            if q[0] == "lit" and parts and parts[-1][0] == "lit":
                parts[-1] = ("lit", parts[-1][1] + q[1])
            else:
                parts.append(q)
    if not parts:
        return ("lit", "")
    if len(parts) == 1:
        return parts[0]
    n = "cat(" + ",".join(repr(q[1]) if q[0] == "lit" else q[1] for q in parts) + ")"
    ln = ic(0)
    for q in parts:
        ln = iadd(ln, ic(len(q[1])) if q[0] == "lit" else e.strlen_[q[1]])
    e.strparts[n] = parts
    opq_obj(e, st, n, ln)
    return ("opq", n)


def anyview(e, st, p):
    """view of a std::string object or of a character pointer"""
    if isinstance(p, T):
        n = icval(p)
        if n is None:
            raise Unsupported("append of a symbolic character")
        return ("lit", chr(n & 255))
    if isinstance(p, IPtr):
        return ("ite", p.c, anyview(e, st, p.a), anyview(e, st, p.b))
    if p.obj in e.ostr:
        return ("opq", e.ostr[p.obj])
    if str_is_opq(e, st, p):
        return strview(e, st, p)
    try:
        return strview(e, st, p)
    except Exception:
        return ("lit", e.cstr(st, p))


def any_opq(e, st, ps):
    for p in ps:
        if isinstance(p, IPtr) and ptr_is_opq(e, p):
            return True
        if isinstance(p, Ptr) and p.obj != 0 and (p.obj in e.ostr or (p.obj in st.mem and str_is_opq(e, st, p))):
            return True
    return False


def p_strplus(e, st, a, ins, name):
    """concatenation involving an arbitrary string"""
    if not any_opq(e, st, a[1:]):
        return None
    strput(e, st, a[0], strcat(e, st, anyview(e, st, a[1]), anyview(e, st, a[2])))
    return UNDEF


def counted(e, st, p, n):
    """view of n characters, if they are known"""
    if not isinstance(p, Ptr) or not isinstance(n, T):
        return None
    if p.obj in e.ostr:
        return ("opq", e.ostr[p.obj]) if p.off == ic(0) and n == e.strlen_.get(e.ostr[p.obj]) else None
    n = icval(n)
    b = chars(e, st, p, n) if n is not None and icval(p.off) is not None else None
    return None if b is None else ("lit", b.decode("latin1"))


def p_strappend(e, st, a, ins, name):
    if not any_opq(e, st, a):
        return None
    if len(a) == 2 and re.search(r"EE(pLE|6appendE|9_M_appendE)", name):
        strput(e, st, a[0], strcat(e, st, strview(e, st, a[0]), anyview(e, st, a[1])))
    elif len(a) == 2 and re.search(r"EE(6assignE|9_M_assignE|aSE)", name):
        strput(e, st, a[0], anyview(e, st, a[1]))
    elif len(a) == 3 and re.search(r"EE(6appendE|9_M_appendE)PKcm$", name) and counted(e, st, a[1], a[2]) is not None:
        strput(e, st, a[0], strcat(e, st, strview(e, st, a[0]), counted(e, st, a[1], a[2])))
    else:
        opq_new(e, st, a[0])
    return a[0] if ins is not None and ins.ty.kind == "ptr" else UNDEF


def p_strctor(e, st, a, ins, name):
    """std::string(char const*) of the characters of an arbitrary string"""
    if not any_opq(e, st, a[1:2]):
        return None
    strput(e, st, a[0], anyview(e, st, a[1]))
    return UNDEF


def p_strfill(e, st, a, ins, name):
    """std::string(n, c) for an arbitrary n"""
    if not isinstance(a[1], T) or icval(a[1]) is not None:
        return None
    n = "fill(%s,%s)" % (a[1], a[2])
    opq_obj(e, st, n, a[1])
    strput(e, st, a[0], ("opq", n))
    return UNDEF


def p_tostring(e, st, a, ins, name):
    n = icval(a[1])
    strput(e, st, a[0], ("lit", str(n)) if n is not None else ("opq", "to_string(%s)" % (a[1],)))
    return UNDEF


@model("vc_definite")
def _(e, st, a, ins):
    if not isinstance(a[0], T) or icval(a[0]) is None:
        raise Unsupported("the state of the written document depends on the data (an element is opened or closed only in some cases)")
    return UNDEF


@model("tolower")
def _(e, st, a, ins):
    return iite(band(ile(ic(65), a[0]), ile(a[0], ic(90))), iadd(a[0], ic(32)), a[0])


@model("toupper")
def _(e, st, a, ins):
    return iite(band(ile(ic(97), a[0]), ile(a[0], ic(122))), iadd(a[0], ic(-32)), a[0])


NUM = {"stoi": (-(1 << 31), (1 << 31) - 1), "stol": (-(1 << 63), (1 << 63) - 1), "stoll": (-(1 << 63), (1 << 63) - 1), "stoul": (0, (1 << 64) - 1), "stoull": (0, (1 << 64) - 1)}


def strnum(e, fn, v):
    """(value, not a number, out of range) of a view"""
    if v[0] == "ite":
        x, y = strnum(e, fn, v[2]), strnum(e, fn, v[3])
        c = v[1]
        return (None,) * 3 if x[0] is None or y[0] is None else (ite(c, x[0], y[0]), bor(band(c, x[1]), band(bnot(c), y[1])), bor(band(c, x[2]), band(bnot(c), y[2])))
    key = repr(v[1]) if v[0] == "lit" else v[1]
    if fn in NUM:
        r = iv("%s(%s)" % (fn, key))
        e.fact(r, ile(ic(NUM[fn][0]), r))
        e.fact(r, ile(r, ic(NUM[fn][1])))
    else:
        r = rv("%s(%s)" % (fn, key))
    return r, bv("%s:invalid(%s)" % (fn, key)), bv("%s:range(%s)" % (fn, key))


def p_stonum(e, st, a, ins, name):
    """std::stoi & co. of an arbitrary string: a number determined by the string, or one of two exceptions"""
    if not any_opq(e, st, a[:1]):
        return None
    fn = re.search(r"(sto[a-z]+?)ERK", name).group(1)
    v = strview(e, st, a[0])
    r, bad, big = strnum(e, fn, v)
    if r is None:
        return None
    s0, s1, s2 = st.copy(), st.copy(), st.copy()
    addpc(s0, bnot(bad), bnot(big))
    addpc(s1, bad)
    addpc(s2, bnot(bad), big)
    return [("ret", s0, r), ("throw", s1, ("exc", "_ZTISt16invalid_argument", NULL)), ("throw", s2, ("exc", "_ZTISt12out_of_range", NULL))]


PATTERNS = [
    (re.compile(r"^_ZStplIcSt11char_traitsIcESaIcEE"), p_strplus),
    (re.compile(r"^_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE(pLE|6append|9_M_append|6insert|9_M_assign|6assign|7replace|10_M_replace)"), p_strappend),
    (re.compile(r"^_ZStls"), p_ostream),
    (re.compile(r"^_ZNSolsE"), p_ostream),
    (re.compile(r"^_ZNSo(3put|5flush|5write|9_M_insert)"), p_ostream),
    (re.compile(r"^_ZNSt(13runtime_error|11logic_error|12domain_error|16invalid_argument|12out_of_range|12length_error|11range_error|14overflow_error|15underflow_error|9exception|9bad_alloc)[CD]\d"), p_excctor),
    (re.compile(r"^_ZSteqIcSt11char_traitsIcESaIcEEbRKNSt7__cxx1112basic_stringIT_T0_T1_EEPKS5_$"), p_streq_cc),
    (re.compile(r"^_ZSteqIcSt11char_traitsIcESaIcEEbRKNSt7__cxx1112basic_stringIT_T0_T1_EES[0-9A-Z]*_$"), p_streq),
    (re.compile(r"^_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE7compareE(PKc|RKS4_)$"), p_strcmp),
    (re.compile(r"^_ZSteqIcEN9__gnu_cxx.*basic_string"), p_streq),
    (re.compile(r"^_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE(C[12]ERKS4_|C[12]EOS4_|aSERKS4_|aSEOS4_)$"), p_strcopy),
    (re.compile(r"^_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEED[12]Ev$"), p_strdtor),
    (re.compile(r"^_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEC[12].*EPKcRKS3_"), p_strctor),
    (re.compile(r"^_ZNSt7__cxx11\d+sto[a-z]+ERKNS_12basic_string"), p_stonum),
    (re.compile(r"^_ZNSt7__cxx119to_stringE[ijlmxy]"), p_tostring),
    (re.compile(r"^_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE12_M_constructEmc$"), p_strfill),
    (re.compile(r"^_ZNSt8ios_base"), p_noop),
]
_pc = {}


def pattern(e, st, name, a, ins):
    """-> None when no pattern applies (or the pattern defers to the code)"""
    f = _pc.get(name, 0)
    if f == 0:
        f = None
        for rx, fn in PATTERNS:
            if rx.search(name):
                f = fn
                break
        _pc[name] = f
    if f is None:
        return None
    return f(e, st, a, ins, name)


@model("__dynamic_cast")
def dyncast(e, st, a, ins):
    if isinstance(a[0], Ptr) and a[0].obj == 0:
        return NULL
    if isinstance(a[0], IPtr):
        return vite(a[0].c, dyncast(e, st, [a[0].a] + list(a[1:]), ins), dyncast(e, st, [a[0].b] + list(a[1:]), ins))
    return dyncast_to(e, st, a, e.load(st, a[0], PTR))


def dyncast_to(e, st, a, vp):
    if isinstance(vp, IPtr):
        return vite(vp.c, dyncast_to(e, st, a, vp.a), dyncast_to(e, st, a, vp.b))
    if not isinstance(vp, Ptr) or vp.obj not in e.objname:
        raise Unsupported("dynamic_cast of an object of unknown class")
    vn = e.objname[vp.obj].lstrip("@")
    want = e.objname.get(a[2].obj, "?").lstrip("@")
    have = vn.replace("_ZTV", "_ZTI", 1)
    x = have
    seen = 0
    while x and seen < 10:
        if x == want:
            return a[0]
        reg_bases(e, st, x)
        x = e.STDEXC.get(x)
        seen += 1
    return NULL


@model("_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base")
def _(e, st, a, ins):
    P = lambda x, o: e.load(st, Ptr(x.obj, iadd(x.off, ic(o))), PTR)
    isnull = lambda x: isinstance(x, Ptr) and x.obj == 0
    x = a[0]
    r = P(x, 24)
    if not isnull(r):
        x = r
        while not isnull(P(x, 16)):
            x = P(x, 16)
        return x
    y = P(x, 8)
    while same(x, P(y, 24)):
        x, y = y, P(y, 8)
    if not same(P(x, 24), y):
        x = y
    return x


@model("_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base")
def _(e, st, a, ins):
    P = lambda x, o: e.load(st, Ptr(x.obj, iadd(x.off, ic(o))), PTR)
    isnull = lambda x: isinstance(x, Ptr) and x.obj == 0
    x = a[0]
    col = icval(e.load(st, x, I32))
    if col == 0 and same(P(P(x, 8), 8), x):
        return P(x, 24)
    l = P(x, 16)
    if not isnull(l):
        while not isnull(P(l, 24)):
            l = P(l, 24)
        return l
    y = P(x, 8)
    while same(x, P(y, 16)):
        x, y = y, P(y, 8)
    return y


@model("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_")
def _(e, st, a, ins):
    """insertion without rebalancing: same search-tree content, different shape (header colour red, nodes black)"""
    left, x, p, h = a
    W = lambda q, o, v: e.store(st, Ptr(q.obj, iadd(q.off, ic(o))), v, PTR)
    P = lambda q, o: e.load(st, Ptr(q.obj, iadd(q.off, ic(o))), PTR)
    W(x, 8, p)
    W(x, 16, NULL)
    W(x, 24, NULL)
    e.store(st, x, ic(1), I32)
    lf = left if left.sort == "B" else bnot(ieq(left, ic(0)))
    d = e.decide(st, lf)
    if d is None:
        raise Unsupported("symbolic tree insertion")
    if d:
        W(p, 16, x)
        if same(p, h):
            W(h, 8, x)
            W(h, 24, x)
        elif same(p, P(h, 16)):
            W(h, 16, x)
    else:
        W(p, 24, x)
        if same(p, P(h, 24)):
            W(h, 24, x)
    return UNDEF
