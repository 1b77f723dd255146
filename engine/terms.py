"""Hash-consed terms over Int / Real / Bool with light simplification."""
from fractions import Fraction as Fr
import math
import sys

sys.setrecursionlimit(200000)


class T:
    __slots__ = ("op", "args", "sort", "id", "_int", "_str", "_poly", "_sz")

    def __repr__(self):
        return show(self)


_tab = {}
_next = [0]


def mk(op, args, sort):
    k = (op, args, sort)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.args, t.sort = op, args, sort
        t.id = _next[0]
        _next[0] += 1
        t._int = None
        t._poly = None
        _tab[k] = t
    return t


_fresh = {}


def fresh_name(base):
    n = _fresh.get(base, 0)
    _fresh[base] = n + 1
    return "%s!%d" % (base, n)


# ---------------------------------------------------------------- Int
# canonical form: op 'lin', args=(const, ((atomterm, coef), ...)) sorted by atom id; atoms are ops: iv, imul, idiv, imod, iite, app, r2i


def ic(n):
    return mk("lin", (n, ()), "I")


def iv(name):
    a = mk("iv", (name,), "I")
    return mk("lin", (0, ((a, 1),)), "I")


def iatom(a):
    return mk("lin", (0, ((a, 1),)), "I")


def is_ic(t):
    return t.op == "lin" and not t.args[1]


def icval(t):
    return t.args[0] if t.op == "lin" and not t.args[1] else None


def _lin(c, d):
    return mk("lin", (c, tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda p: p[0].id))), "I")


def iadd(a, b):
    if not a.args[1]:
        if a.args[0] == 0:
            return b
        return mk("lin", (a.args[0] + b.args[0], b.args[1]), "I")
    if not b.args[1]:
        if b.args[0] == 0:
            return a
        return mk("lin", (a.args[0] + b.args[0], a.args[1]), "I")
    d = dict(a.args[1])
    for x, k in b.args[1]:
        d[x] = d.get(x, 0) + k
    return _lin(a.args[0] + b.args[0], d)


def iscale(a, k):
    if k == 1:
        return a
    if k == 0:
        return ic(0)
    return mk("lin", (a.args[0] * k, tuple((x, c * k) for x, c in a.args[1])), "I")


def isub(a, b):
    if a is b:
        return ic(0)
    return iadd(a, iscale(b, -1))


def imul(a, b):
    va, vb = icval(a), icval(b)
    if va is not None:
        return iscale(b, va)
    if vb is not None:
        return iscale(a, vb)
    if a.id > b.id:
        a, b = b, a
    # distribute over sums to keep products canonical
    out = ic(a.args[0] * b.args[0])
    if len(a.args[1]) * len(b.args[1]) <= 64:
        out = iadd(out, iadd(iscale(mk("lin", (0, a.args[1]), "I"), b.args[0]), iscale(mk("lin", (0, b.args[1]), "I"), a.args[0])))
        for x, c in a.args[1]:
            for y, d in b.args[1]:
                fx = x.args if x.op == "imul" else (x,)
                fy = y.args if y.op == "imul" else (y,)
                fs = tuple(sorted(fx + fy, key=lambda t: t.id))
                out = iadd(out, iscale(iatom(mk("imul", fs, "I")), c * d))
        return out
    return iatom(mk("imul", (a, b), "I"))


def idiv(a, b):  # C truncating division
    va, vb = icval(a), icval(b)
    if vb is not None and vb != 0:
        if va is not None:
            q = abs(va) // abs(vb)
            return ic(q if (va >= 0) == (vb > 0) else -q)
        if vb == 1:
            return a
        if vb == -1:
            return iscale(a, -1)
        if all(c % vb == 0 for _, c in a.args[1]) and a.args[0] % vb == 0:
            return mk("lin", (a.args[0] // vb, tuple((x, c // vb) for x, c in a.args[1])), "I")
    return iatom(mk("idiv", (a, b), "I"))


def imod(a, b):
    va, vb = icval(a), icval(b)
    if va is not None and vb is not None and vb != 0:
        return isub(a, imul(idiv(a, b), b))
    if vb == 1:
        return ic(0)
    return iatom(mk("imod", (a, b), "I"))


def emod(a, n):  # Euclidean modulo by a positive constant
    va = icval(a)
    if va is not None:
        return ic(va % n)
    return iatom(mk("emod", (a, n), "I"))


# ---------------------------------------------------------------- Bool
TRUE = mk("bc", (True,), "B")
FALSE = mk("bc", (False,), "B")


def bc(v):
    return TRUE if v else FALSE


def bv(name):
    return mk("bv", (name,), "B")


def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "le0":  # lin<=0  -> -lin+1 <= 0
        return le0(isub(ic(1), a.args[0]))
    return mk("not", (a,), "B")


def band(*xs):
    s = {}
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == "and":
            for y in x.args:
                s[y.id] = y
        else:
            s[x.id] = x
    for y in s.values():
        if bnot(y).id in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s.values()))
    return mk("and", tuple(s[k] for k in sorted(s)), "B")


def bor(*xs):
    s = {}
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        if x.op == "or":
            for y in x.args:
                s[y.id] = y
        else:
            s[x.id] = x
    for y in s.values():
        if bnot(y).id in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s.values()))
    return mk("or", tuple(s[k] for k in sorted(s)), "B")


def le0(l):
    v = icval(l)
    if v is not None:
        return bc(v <= 0)
    # gcd normalise
    g = 0
    for _, c in l.args[1]:
        g = math.gcd(g, abs(c))
    if g > 1:
        # sum c x + k <= 0  -> sum (c/g) x + ceil(k/g) <= 0
        l = mk("lin", (-((-l.args[0]) // g), tuple((x, c // g) for x, c in l.args[1])), "I")
    return mk("le0", (l,), "B")


def ile(a, b):
    return le0(isub(a, b))


def ilt(a, b):
    return le0(iadd(isub(a, b), ic(1)))


def ieq(a, b):
    d = isub(a, b)
    v = icval(d)
    if v is not None:
        return bc(v == 0)
    if d.args[1][0][1] < 0:
        d = iscale(d, -1)
    # single-atom ite collapse
    if len(d.args[1]) == 1:
        a0, k = d.args[1][0]
        if a0.op == "iite" and (abs(k) == 1):
            c, x, y = a0.args
            base = ic(d.args[0])
            return bite(c, ieq(iscale(x, k), iscale(base, -1)), ieq(iscale(y, k), iscale(base, -1)))
    return mk("eq0", (d,), "B")


def bite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE:
        return bor(c, b)
    if a is FALSE:
        return band(bnot(c), b)
    if b is TRUE:
        return bor(bnot(c), a)
    if b is FALSE:
        return band(c, a)
    return bor(band(c, a), band(bnot(c), b))


def beq(a, b):
    if a is b:
        return TRUE
    return bite(a, b, bnot(b))


def iite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    # factor the common constant part
    return iatom(mk("iite", (c, a, b), "I"))


# ---------------------------------------------------------------- Real
ZERO = mk("rc", (Fr(0),), "R")
ONE = mk("rc", (Fr(1),), "R")
PI = mk("rv", ("pi",), "R")


def rc(x):
    return mk("rc", (Fr(x),), "R")


_dcache = {}


def rdouble(d):
    """A double literal read as the real number it denotes: p/q with small q, or (p/q)*pi, else the exact binary value."""
    t = _dcache.get(d)
    if t is not None:
        return t
    if d != d:
        t = mk("rv", ("NaN",), "R")
    elif d in (math.inf, -math.inf):
        t = mk("rv", ("Inf" if d > 0 else "-Inf",), "R")
    else:
        e = Fr(d)
        t = None
        if e.denominator <= (1 << 40) and abs(e) < 1 << 62:
            t = rc(e) if e.denominator <= 1 << 12 else None
        if t is None:
            for q in (1000, 10 ** 6):
                f = e.limit_denominator(q)
                if f != 0 and float(f) == d:
                    t = rc(f)
                    break
        if t is None and d != 0:
            r = Fr(d / math.pi).limit_denominator(720)
            if r != 0 and abs(float(r) * math.pi - d) <= 4e-16 * abs(d):
                t = rmul(rc(r), PI)
        if t is None:
            # decimal literal with few digits
            s = repr(d)
            f = Fr(s)
            t = rc(f)
    _dcache[d] = t
    return t


def rv(name):
    return mk("rv", (name,), "R")


def rcval(t):
    return t.args[0] if t.op == "rc" else None


def radd(a, b):
    if a.op == "rc":
        if b.op == "rc":
            return rc(a.args[0] + b.args[0])
        if a.args[0] == 0:
            return b
        if b.op == "radd" and b.args[0].op == "rc":
            return radd(rc(a.args[0] + b.args[0].args[0]), b.args[1])
    elif b.op == "rc":
        return radd(b, a)
    if a.id > b.id and a.op != "rc":
        a, b = b, a
    if b.op == "rmul" and b.args[0].op == "rc" and b.args[0].args[0] == -1 and b.args[1] is a:
        return ZERO
    if a.op == "rmul" and a.args[0].op == "rc" and a.args[0].args[0] == -1 and a.args[1] is b:
        return ZERO
    return mk("radd", (a, b), "R")


def rneg(a):
    return rmul(rc(-1), a)


def rsub(a, b):
    if a is b:
        return ZERO
    return radd(a, rneg(b))


def rmul(a, b):
    if b.op == "rc" and a.op != "rc":
        a, b = b, a
    if a.op == "rc":
        v = a.args[0]
        if b.op == "rc":
            return rc(v * b.args[0])
        if v == 0:
            return ZERO
        if v == 1:
            return b
        if b.op == "rmul" and b.args[0].op == "rc":
            return rmul(rc(v * b.args[0].args[0]), b.args[1])
        return mk("rmul", (a, b), "R")
    if a.op == "rmul" and a.args[0].op == "rc":
        return rmul(a.args[0], rmul(a.args[1], b))
    if b.op == "rmul" and b.args[0].op == "rc":
        return rmul(b.args[0], rmul(a, b.args[1]))
    if a.id > b.id:
        a, b = b, a
    return mk("rmul", (a, b), "R")


def rdiv(a, b):
    if b.op == "rc" and b.args[0] != 0:
        return rmul(rc(1 / b.args[0]), a)
    if a.op == "rc" and a.args[0] == 0 and b.op != "rc":
        return ZERO
    return mk("rdiv", (a, b), "R")


def rite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return rite(c.args[0], b, a)
    if b.op == "rite" and b.args[0] is c:
        b = b.args[2]
    if a.op == "rite" and a.args[0] is c:
        a = a.args[1]
    if a is b:
        return a
    return mk("rite", (c, a, b), "R")


def rle(a, b):
    if a is b:
        return TRUE
    if a.op == "rc" and b.op == "rc":
        return bc(a.args[0] <= b.args[0])
    return mk("rle", (a, b), "B")


def rlt(a, b):
    return bnot(rle(b, a))


def req(a, b):
    if a is b:
        return TRUE
    if a.op == "rc" and b.op == "rc":
        return bc(a.args[0] == b.args[0])
    if a.id > b.id:
        a, b = b, a
    return mk("req", (a, b), "B")


def i2r(a):
    v = icval(a)
    if v is not None:
        return rc(v)
    r = rc(a.args[0]) if a.args[0] else ZERO
    for x, c in a.args[1]:
        r = radd(r, rmul(rc(c), mk("i2r", (x,), "R")))
    return r


def app(fn, args, sort):
    if sort == "I":
        return iatom(mk("app", (fn,) + tuple(args), "I"))
    return mk("app", (fn,) + tuple(args), sort)


def ite(c, a, b):
    s = a.sort
    return iite(c, a, b) if s == "I" else rite(c, a, b) if s == "R" else bite(c, a, b)


def eq(a, b):
    return ieq(a, b) if a.sort == "I" else req(a, b) if a.sort == "R" else beq(a, b)


# ---------------------------------------------------------------- traversal
def children(t):
    op = t.op
    if op == "lin":
        return tuple(a for a, _ in t.args[1])
    if op in ("iv", "rv", "bv", "bc", "rc"):
        return ()
    if op == "app":
        return t.args[1:]
    if op == "emod":
        return t.args[:1]
    return t.args


def rebuild(t, f):
    """rebuild t with children mapped by f (atoms of a lin are mapped to lin terms)"""
    op = t.op
    if op == "lin":
        r = ic(t.args[0])
        for a, k in t.args[1]:
            r = iadd(r, iscale(f(a), k))
        return r
    if op in ("iv", "rv", "bv", "bc", "rc"):
        return iatom(t) if op == "iv" else t
    if op == "imul":
        r = None
        for a in t.args:
            x = f(a)
            r = x if r is None else imul(r, x)
        return r
    a = [f(x) for x in children(t)]
    if op == "idiv":
        return idiv(*a)
    if op == "imod":
        return imod(*a)
    if op == "emod":
        return emod(a[0], t.args[1])
    if op == "iite":
        return iite(*a)
    if op == "app":
        return app(t.args[0], a, t.sort)
    if op == "not":
        return bnot(a[0])
    if op == "and":
        return band(*a)
    if op == "or":
        return bor(*a)
    if op == "le0":
        return le0(a[0])
    if op == "eq0":
        return ieq(a[0], ic(0))
    if op == "radd":
        return radd(*a)
    if op == "rmul":
        return rmul(*a)
    if op == "rdiv":
        return rdiv(*a)
    if op == "rite":
        return rite(*a)
    if op == "rle":
        return rle(*a)
    if op == "req":
        return req(*a)
    if op == "i2r":
        return i2r(a[0])
    if op == "r2i":
        return iatom(mk("r2i", (a[0],), "I"))
    raise ValueError(op)


def is_int_only(t):
    """a Bool/Int term that contains no Real sub-term and no Bool variable/app over reals"""
    if t._int is None:
        if t.sort == "R":
            t._int = False
        else:
            t._int = all(is_int_only(c) for c in children(t))
    return t._int


def subst(t, m, memo=None, hook=None):
    """m: dict from atom term (iv/rv/bv) -> term.  hook(t,newargs) may override app rebuild."""
    if memo is None:
        memo = {}
    st = [t]
    while st:
        x = st[-1]
        if x in memo:
            st.pop()
            continue
        if x in m:
            memo[x] = m[x]
            st.pop()
            continue
        todo = [c for c in children(x) if c not in memo]
        if todo:
            st.extend(todo)
            continue
        memo[x] = rebuild(x, lambda c: memo[c])
        st.pop()
    return memo[t]


def atoms(t, seen=None, out=None):
    if seen is None:
        seen = set()
    if out is None:
        out = []
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("iv", "rv", "bv", "app", "rdiv", "r2i", "idiv", "imod", "emod"):
            out.append(x)
        st.extend(children(x))
    return out


def size(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(children(x))
    return len(seen)


def show(t, d=6):
    op = t.op
    if d == 0:
        return "..."
    s = lambda x: show(x, d - 1)
    if op == "lin":
        ps = []
        for a, k in t.args[1]:
            ps.append(s(a) if k == 1 else "-" + s(a) if k == -1 else "%d*%s" % (k, s(a)))
        if t.args[0] or not ps:
            ps.append(str(t.args[0]))
        return "+".join(ps).replace("+-", "-") if len(ps) == 1 else "(" + "+".join(ps).replace("+-", "-") + ")"
    if op in ("iv", "rv", "bv"):
        return str(t.args[0])
    if op == "bc":
        return str(t.args[0])
    if op == "rc":
        v = t.args[0]
        return str(v) if len(str(v)) < 12 else "%.15g" % float(v)
    if op == "app":
        return "%s(%s)" % (t.args[0], ",".join(s(x) for x in t.args[1:]))
    if op == "not" and t.args[0].op == "rle":
        return "(%s>%s)" % (s(t.args[0].args[0]), s(t.args[0].args[1]))
    sym = {"radd": "+", "rmul": "*", "rdiv": "/", "rle": "<=", "req": "==", "and": " & ", "or": " | ", "imul": "*"}
    if op in sym:
        return "(" + sym[op].join(s(x) for x in t.args) + ")"
    if op == "le0":
        return s(t.args[0]) + "<=0"
    if op == "eq0":
        return s(t.args[0]) + "==0"
    return "%s(%s)" % (op, ",".join(s(x) if isinstance(x, T) else str(x) for x in t.args))


def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(children(x))
