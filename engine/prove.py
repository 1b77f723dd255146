"""Discharge of proof obligations: context simplification, case splitting, ring normalisation, z3 / cvc5."""
import os
import subprocess
import tempfile
import time
from fractions import Fraction as Fr

import z3

from terms import *
import terms as TM

STATS = {"ring": 0, "sign": 0, "int": 0, "z3": 0, "nlsat": 0, "cvc5": 0, "z3-new": 0, "trivial": 0, "hyp": 0, "leaves": 0, "z3_time": 0.0}


# ---------------------------------------------------------------- polynomials (Laurent) over atoms
class Ring:
    """rational functions as Laurent polynomials; `Q` atoms stand for inverted non-monomial polynomials"""

    def __init__(self, sub=None):
        self.memo = {}
        self.qkey = {}
        self.qpoly = {}
        self.dens = {}
        self.sub = {}
        self.terms = {}
        self.limit = 20000

    def atom(self, t, e=1):
        self.terms[t.id] = t
        return {((t.id, e),): Fr(1)}

    def add(self, p, q, k=1):
        if not q:
            return p
        if not p and k == 1:
            return q
        r = dict(p)
        for m, c in q.items():
            v = r.get(m)
            if v is None:
                r[m] = c * k
            else:
                v = v + c * k
                if v == 0:
                    del r[m]
                else:
                    r[m] = v
        return r

    def mmul(self, a, b):
        if not a:
            return b
        if not b:
            return a
        out = []
        i = j = 0
        while i < len(a) and j < len(b):
            x, y = a[i], b[j]
            if x[0] == y[0]:
                e = x[1] + y[1]
                if e:
                    out.append((x[0], e))
                i += 1
                j += 1
            elif x[0] < y[0]:
                out.append(x)
                i += 1
            else:
                out.append(y)
                j += 1
        out.extend(a[i:])
        out.extend(b[j:])
        return tuple(out)

    def mul(self, p, q):
        if not p or not q:
            return {}
        if len(p) * len(q) > self.limit * 20:
            raise TooBig()
        r = {}
        for m, c in p.items():
            for n, d in q.items():
                k = self.mmul(m, n)
                v = r.get(k)
                r[k] = c * d if v is None else v + c * d
        r = {m: c for m, c in r.items() if c != 0}
        if len(r) > self.limit:
            raise TooBig()
        return self.red(r)

    def red(self, p):
        """reduce sqrt(x)^2 -> x, cos^2 -> 1 - sin^2"""
        for m in p:
            for a, e in m:
                if e >= 2 and a in self.special:
                    break
            else:
                continue
            break
        else:
            return p
        r = {}
        for m, c in p.items():
            hit = None
            for a, e in m:
                if e >= 2 and a in self.special:
                    hit = (a, e)
                    break
            if hit is None:
                r = self.add(r, {m: c})
            else:
                a, e = hit
                rest = tuple((x, y) for x, y in m if x != a)
                base = {rest: c} if e == 2 else {self.mmul(rest, ((a, e - 2),)): c}
                r = self.add(r, self.mul(base, self.special[a]()))
        return r

    special = None

    def poly(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        st = [t]
        while st:
            x = st[-1]
            if x in self.memo:
                st.pop()
                continue
            if x in self.sub:
                y = self.sub[x]
                if y in self.memo:
                    self.memo[x] = self.memo[y]
                    st.pop()
                else:
                    st.append(y)
                continue
            if x.op in ("radd", "rmul", "rdiv"):
                todo = [c for c in x.args if c not in self.memo]
                if todo:
                    st.extend(todo)
                    continue
            self.memo[x] = self._poly(x)
            st.pop()
        return self.memo[t]

    def _poly(self, x):
        op = x.op
        if op == "rc":
            return {(): x.args[0]} if x.args[0] != 0 else {}
        if op == "radd":
            return self.add(self.memo[x.args[0]], self.memo[x.args[1]])
        if op == "rmul":
            return self.mul(self.memo[x.args[0]], self.memo[x.args[1]])
        if op == "rdiv":
            q = self.memo[x.args[1]]
            return self.mul(self.memo[x.args[0]], self.inv(q, x.args[1]))
        if op == "app":
            fn = x.args[0]
            if fn == "sqrt":
                a = x.args[1]
                p = self.poly(a)
                # canonical atom: sqrt of the canonical polynomial
                key = ("sqrt", self.key(p))
                t = self.canon(key, x)
                if t.id not in self.special:
                    self.special[t.id] = lambda p=p: p
                    self.dens.setdefault(("sqrt", t.id), ("ge0", a))
                return self.atom(t)
            if fn == "cos":
                key = ("cos", self.key(self.poly(x.args[1])))
                t = self.canon(key, x)
                s = self.canon(("sin", key[1]), app("sin", (x.args[1],), "R"))
                if t.id not in self.special:
                    one = {(): Fr(1)}
                    sa = self.atom(s, 2)
                    self.special[t.id] = lambda: self.add(one, sa, -1)
                return self.atom(t)
            if all(a.sort == "R" for a in x.args[1:]):
                key = (fn,) + tuple(self.akey(self.poly(a)) for a in x.args[1:])
                t = self.canon(key, x)
                if t in self.sub:
                    return self.poly(self.sub[t])
                return self.atom(t)
            return self.atom(x)
        return self.atom(x)

    def canon(self, key, x):
        t = self.qkey.get(key)
        if t is None:
            self.qkey[key] = t = x
        return t

    def key(self, p):
        return tuple(sorted(p.items()))

    def akey(self, p):
        """key of the argument of a function: coefficients up to rounding of constants"""
        return tuple(sorted((m, "%.11e" % c) for m, c in p.items()))

    def inv(self, q, term):
        if not q:
            raise ZeroDen()
        if len(q) == 1:
            (m, c), = q.items()
            self.dens.setdefault(("m", m), ("ne0", term))
            return {tuple((a, -e) for a, e in m): 1 / c}
        # factor out the content monomial and leading coefficient
        ms = sorted(q)
        lead = q[ms[0]]
        qn = {m: c / lead for m, c in q.items()}
        k = self.key(qn)
        t = self.qkey.get(("Q", k))
        if t is None:
            t = mk("rv", ("Q!%d" % len(self.qkey) + "_%d" % id(self),), "R")
            self.qkey[("Q", k)] = t
            self.qpoly[t.id] = qn
            self.dens[("q", t.id)] = ("ne0", term)
        return {((t.id, -1),): 1 / lead}

    def clear(self, p):
        """multiply out every Q atom"""
        while True:
            low = {}
            for m in p:
                for a, e in m:
                    if a in self.qpoly and e < 0:
                        low[a] = min(low.get(a, 0), e)
            if not low:
                return p
            a = max(low)  # eliminate the most recently introduced first
            k = -low[a]
            qp = [{(): Fr(1)}]
            for _ in range(k):
                qp.append(self.mul(qp[-1], self.qpoly[a]))
            r = {}
            for m, c in p.items():
                e = 0
                rest = []
                for x, y in m:
                    if x == a:
                        e = y
                    else:
                        rest.append((x, y))
                r = self.add(r, self.mul({tuple(rest): c}, qp[k + e]))
            p = r


class TooBig(Exception):
    pass


class ZeroDen(Exception):
    pass


def ring_new(sub=None):
    r = Ring()
    r.special = {}
    for x in sub or ():
        if x.op == "app" and x.args[0] not in ("sqrt", "cos", "sin"):
            r.poly(x)  # make x the canonical representative
    r.memo = {}
    r.sub = dict(sub or {})
    return r


def nearly_zero(pa, pb, tol=Fr(1, 10 ** 11)):
    for m in set(pa) | set(pb):
        x, y = pa.get(m, 0), pb.get(m, 0)
        if x != y and abs(x - y) > tol * max(abs(x), abs(y)):
            return False
    return True


# ---------------------------------------------------------------- prover context
class Ctx:
    """a path condition with derived knowledge"""

    def __init__(self, eng, hyps):
        self.e = eng
        self.h = []
        self.hs = set()
        self.asm = {}
        self.signs = {}
        self.bounds = {}
        self.false = False
        self.ring = ring_new()
        for x in hyps:
            self.add(x)

    def clone(self):
        c = Ctx.__new__(Ctx)
        c.e = self.e
        c.h = list(self.h)
        c.hs = set(self.hs)
        c.asm = dict(self.asm)
        c.signs = dict(self.signs)
        c.bounds = dict(self.bounds)
        c.false = self.false
        c.ring = self.ring
        return c

    def add(self, x):
        if x is TRUE or x in self.hs:
            return
        if x is FALSE:
            self.false = True
            return
        if x.op == "and":
            for y in x.args:
                self.add(y)
            return
        if bnot(x) in self.hs:
            self.false = True
        self.h.append(x)
        self.hs.add(x)
        self.asm[x] = TRUE
        self.asm[bnot(x)] = FALSE
        y = x
        neg = False
        if y.op == "not":
            y, neg = y.args[0], True
        if y.op in ("rle", "req") and size(y) < 1500:
            k = self.skey(y.args[0], y.args[1])
            if k is not None:
                key, s = k
                # sign of (a-b) in terms of key polynomial times s
                if y.op == "rle":
                    al = {1} if neg else {-1, 0}
                else:
                    al = {-1, 1} if neg else {0}
                al = {s * v for v in al}
                old = self.signs.get(key, frozenset((-1, 0, 1)))
                new = old & al
                if not new:
                    self.false = True
                self.signs[key] = frozenset(new)
                self.bound(key, new)

    def bound(self, key, s):
        """remember  lo <(=) p <(=) hi  for the polynomial p without its constant term"""
        d = dict(key)
        k0 = d.pop((), 0)
        if not d:
            return
        ms = sorted(d)
        l = d[ms[0]]
        nk = tuple((m, d[m] / l) for m in ms)
        v = -k0 / l  # s says the sign of l*(P - v)
        s = frozenset(x if l > 0 else -x for x in s)
        lo, los, hi, his = self.bounds.get(nk, (None, False, None, False))
        if -1 not in s:
            st = 0 not in s
            if lo is None or v > lo or (v == lo and st):
                lo, los = v, st
        if 1 not in s:
            st = 0 not in s
            if hi is None or v < hi or (v == hi and st):
                hi, his = v, st
        self.bounds[nk] = (lo, los, hi, his)

    def bsign(self, key):
        """sign set of the polynomial `key` from the bounds"""
        d = dict(key)
        k0 = d.pop((), 0)
        if not d:
            return None
        ms = sorted(d)
        l = d[ms[0]]
        b = self.bounds.get(tuple((m, d[m] / l) for m in ms))
        if b is None:
            return None
        v = -k0 / l
        lo, los, hi, his = b
        s = {-1, 0, 1}
        if lo is not None and lo >= v:
            s -= {-1}
            if lo > v or los:
                s -= {0}
        if hi is not None and hi <= v:
            s -= {1}
            if hi < v or his:
                s -= {0}
        if len(s) == 3 or not s:
            return None
        return frozenset(x if l > 0 else -x for x in s)

    def sget(self, key):
        a, b = self.signs.get(key), self.bsign(key)
        if a is None:
            return b
        if b is None:
            return a
        return (a & b) or a

    def skey(self, a, b):
        try:
            p = self.ring.add(self.ring.poly(a), self.ring.poly(b), -1)
        except (TooBig, ZeroDen):
            return None
        if not p:
            return None
        ms = sorted(p)
        l = p[ms[0]]
        return tuple((m, p[m] / abs(l) * (1 if l > 0 else -1)) for m in ms), (1 if l > 0 else -1)

    def known(self, c):
        """TRUE / FALSE / None for a boolean term"""
        r = self.asm.get(c)
        if r is not None:
            return r
        if c.op == "not":
            r = self.known(c.args[0])
            return None if r is None else bnot(r)
        if c.op in ("rle", "req"):
            try:
                p = self.ring.add(self.ring.poly(c.args[0]), self.ring.poly(c.args[1]), -1) if size(c) < 1500 else None
            except (TooBig, ZeroDen):
                p = None
            if p is not None:
                if not p:
                    return TRUE
                if set(p) == {()}:
                    return bc(p[()] <= 0 if c.op == "rle" else False)
                k = self.skey(c.args[0], c.args[1])
                if k:
                    s = self.sget(k[0])
                    if s is None and len(p) == 1:
                        s = self.mono_sign(p)
                        if s is not None:
                            s = frozenset(v * k[1] for v in s)
                    if s is not None:
                        al = {v * k[1] for v in s}
                        if c.op == "rle":
                            if al <= {-1, 0}:
                                return TRUE
                            if al == {1}:
                                return FALSE
                        else:
                            if al == {0}:
                                return TRUE
                            if 0 not in al:
                                return FALSE
            return None
        if is_int_only(c):
            d = self.e.decide(_St(self.ipc()), c)
            return None if d is None else bc(d)
        return None

    def mono_sign(self, p):
        """sign set of a single monomial from the signs of its atoms"""
        (m, c), = p.items()
        s = frozenset((1,)) if c > 0 else frozenset((-1,))
        for a, e in m:
            t = self.asg(a)
            if t is None:
                if e % 2 == 0:
                    t = frozenset((0, 1))
                else:
                    return None
            if e % 2 == 0:
                t = frozenset(v * v for v in t)
            s = frozenset(x * y for x in s for y in t)
        return s

    def asg(self, aid):
        return self.sget(((((aid, 1),), Fr(1)),))

    _ipc = None

    def ipc(self):
        if self._ipc is None or self._ipc[0] != len(self.h):
            self._ipc = (len(self.h), tuple(self.h))
        return self._ipc[1]

    def simp(self, t, memo=None):
        if memo is None:
            memo = {}
        st = [t]
        while st:
            x = st[-1]
            if x in memo:
                st.pop()
                continue
            if x.sort == "B" and x is not t:
                k = self.asm.get(x)
                if k is not None:
                    memo[x] = k
                    st.pop()
                    continue
            if x.op in ("rite", "iite"):
                c = x.args[0]
                if c not in memo:
                    st.append(c)
                    continue
                cv = memo[c]
                if cv is TRUE:
                    y = x.args[1]
                elif cv is FALSE:
                    y = x.args[2]
                else:
                    y = None
                if y is not None:
                    if y in memo:
                        memo[x] = memo[y]
                        st.pop()
                    else:
                        st.append(y)
                    continue
            todo = [c for c in children(x) if c not in memo]
            if todo:
                st.extend(todo)
                continue
            y = rebuild(x, lambda c: memo[c])
            if y.sort == "B" and y.op not in ("bc",):
                k = self.known(y) if y.op not in ("and", "or") else self.asm.get(y)
                if k is not None:
                    y = k
            if y.op == "app" and y is not x:
                self.e.app_facts(y)
            elif y.op == "lin" and x.op == "app":
                for a, _ in y.args[1]:
                    if a.op == "app":
                        self.e.app_facts(a)
            memo[x] = y
            st.pop()
        return memo[t]


class _St:
    __slots__ = ("pc",)

    def __init__(self, pc):
        self.pc = pc


def find_cond(t):
    """an ite condition to split on (innermost, int-only preferred)"""
    best = None
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("rite", "iite"):
            c = x.args[0]
            inner = has_ite(c)
            if not inner:
                for a in (c.args if c.op in ("and", "or") else (c,)):
                    w = (0 if is_int_only(a) else 1, size(a))
                    if best is None or w < best[0]:
                        best = (w, a)
        st.extend(children(x))
    return best[1] if best else None


_hi = {}


def has_ite(t):
    r = _hi.get(t)
    if r is None:
        r = t.op in ("rite", "iite") or any(has_ite(c) for c in children(t))
        _hi[t] = r
    return r


def texts(h):
    """a fact about the text of a string"""
    return h.op == "or" and any(a.op == "bv" and a.args[0].startswith("streq(") for a in atoms(h))


class Result:
    def __init__(self, ok, by="", model=None, why="", leaf=None):
        self.ok, self.by, self.model, self.why, self.leaf = ok, by, model, why, leaf


class Prover:
    def __init__(self, eng, timeout=10.0, budget=60.0, ext=True, maxleaves=3000):
        self.e = eng
        self.timeout = timeout
        self.deadline = time.time() + budget
        self.ext = ext
        self.leaves = 0
        self.maxleaves = maxleaves
        self.by = set()

    def prove(self, hyps, goal):
        c = Ctx(self.e, hyps)
        # simplify hypotheses once against int knowledge and unit facts
        for t in list(c.h) + [goal]:
            for a in atoms(t):
                if a.op == "app":
                    self.e.app_facts(a)
        fs = self.e.facts_for(goal)
        for h in list(c.h):
            fs += self.e.facts_for(h)
        for f in fs:
            if f.op == "or" and any(x.op in ("req", "rle") for x in f.args) and size(f) < 400:
                f = c.simp(f)
            if f.op in ("rle", "req") or (f.op == "not" and f.args[0].op in ("rle", "req")):
                c.add(f)
        from builtins_ import PI_FACTS

        if any(a is PI for t in list(c.h) + [goal] for a in atoms(t)):
            for f in PI_FACTS:
                c.add(f)
            c.add(rlt(ZERO, PI))
        r = self.solve(c, goal, 0)
        r.by = "+".join(sorted(self.by)) or r.by
        return r

    def solve(self, c, g, depth):
        if c.false:
            return Result(True, "hyp")
        g = c.simp(g)
        k = c.known(g) if g.op not in ("and", "or") else None
        if k is not None:
            g = k
        if g is TRUE:
            self.by.add("simp")
            return Result(True)
        if g.op == "and":
            for x in g.args:
                r = self.solve(c.clone(), x, depth)
                if not r.ok:
                    return r
            return Result(True)
        if g.op == "not" and g.args[0].op == "or":
            return self.solve(c, band(*[bnot(x) for x in g.args[0].args]), depth)
        if g.op == "not" and g.args[0].op == "and":
            return self.solve(c, bor(*[bnot(x) for x in g.args[0].args]), depth)
        if time.time() > self.deadline:
            return Result(False, why="time budget")
        if g.op == "or":
            args = sorted(g.args, key=lambda x: (0 if is_int_only(x) else 1, size(x)))
            c2 = c.clone()
            if any(x.op == "and" for x in args):
                # split on the conjuncts' first elements would explode; move simple disjuncts to hypotheses
                simple = [x for x in args if x.op != "and"]
                rest = [x for x in args if x.op == "and"]
                for x in simple:
                    c2.add(bnot(x))
                if len(rest) == 1 or not simple:
                    if len(rest) == 1:
                        return self.solve(c2, rest[0], depth + 1)
                    return self.leaf(c2, bor(*rest))
                return self.leaf(c2, bor(*rest))
            for x in args[:-1]:
                c2.add(bnot(x))
            return self.solve(c2, args[-1], depth + 1)
        cond = find_cond(g)
        if cond is not None:
            if depth > 60 or self.leaves > self.maxleaves:
                return Result(False, why="case split limit")
            for v in (cond, bnot(cond)):
                c2 = c.clone()
                c2.add(v)
                if c2.false:
                    continue
                if is_int_only(v) and self.e.decide(_St(c.ipc()), bnot(v)) is True:
                    continue
                m = self.pinned(c, v)
                if m:
                    memo = {}
                    c2 = Ctx(self.e, [y for y in (subst(x, m, memo) for x in c2.h) if y is not TRUE])
                    if c2.false:
                        continue
                    r = self.solve(c2, subst(g, m, memo), depth + 1)
                else:
                    r = self.solve(c2, g, depth + 1)
                if not r.ok:
                    return r
            return Result(True)
        return self.leaf(c, g)

    def pinned(self, c, v):
        """an index equation that follows once v is added: {index variable: term}"""
        if v.op not in ("le0", "eq0"):
            return None
        lin = v.args[0]
        cand = [(a, k) for a, k in lin.args[1] if a.op == "iv" and abs(k) == 1]
        if not cand:
            return None
        if v.op == "le0" and not self.e.implied(frozenset(c.ipc()), le0(iscale(lin, -1))):
            return None
        a, k = cand[-1]
        rest = isub(lin, iscale(iatom(a), k))
        if a in set(atoms(rest)):
            return None
        return {a: iscale(rest, -k)}

    # ------------------------------------------------------------ leaves
    def leaf(self, c, g):
        self.leaves += 1
        STATS["leaves"] += 1
        e = self.e
        if is_int_only(g):
            if e.implied(frozenset(e.int_pc(c.h)), g):
                self.by.add("z3-int")
                STATS["int"] += 1
                return Result(True)
        if g.op == "req" and g.args[0].sort == "R":
            if self.ring_eq(c, g.args[0], g.args[1]):
                self.by.add("ring")
                STATS["ring"] += 1
                return Result(True)
        if self.sign_leaf(c, g):
            self.by.add("sign")
            STATS["sign"] += 1
            return Result(True)
        return self.smt(c, g)

    def eq_subst(self, c):
        m = {}
        # classes of atoms known to be equal
        uf = {}

        def find(x):
            while x in uf:
                x = uf[x]
            return x

        for h in c.h:
            if h.op == "req" and all(x.op in ("rv", "app") and x is not PI for x in h.args):
                x, y = (find(z) for z in h.args)
                if x is not y and x not in set(atoms(y)) and y not in set(atoms(x)):
                    if x.id < y.id:
                        x, y = y, x
                    uf[x] = y
        m = {x: find(x) for x in uf}
        for h in c.h:
            if h.op == "req":
                a, b = h.args
                if has_ite(h):
                    a, b = c.simp(a), c.simp(b)
                if uf:
                    a, b = subst(a, m), subst(b, m)
                    if a is b:
                        continue
                for x, y in ((a, b), (b, a)):
                    if x.op in ("rv", "app") and x not in m and x not in set(atoms(y)) and x is not PI:
                        if not any(x in set(atoms(v)) for v in m.values()) and not any(k in set(atoms(y)) for k in m):
                            m[x] = y
                            break
        return m

    def ring_eq(self, c, a, b):
        if size(a) + size(b) > 6000:
            return False
        subs = [{}]
        m = self.eq_subst(c)
        if m:
            subs.append(m)
        d = self.zero_subst(c)
        if d:
            subs.append(d)
        for sub in subs:
            ring = ring_new(sub)
            try:
                pa, pb = ring.poly(a), ring.poly(b)
                cleared = pa != pb
                if pa != pb and not nearly_zero(pa, pb):
                    pa = ring.clear(ring.add(pa, pb, -1))
                    if pa:
                        pa = self.poly_subst(c, ring, pa)
                    if pa:
                        pos = {m: v for m, v in pa.items()}
                        continue
            except (TooBig, ZeroDen):
                continue
            # side conditions
            ok = True
            for k, (kind, t) in ring.dens.items():
                if kind == "ne0":
                    # without cancellation x/d is x times some total function of d
                    if k[0] == "q" and not cleared:
                        continue
                    if not self.nonzero(c, t):
                        ok = False
                        break
                else:
                    if not self.ge0(c, t):
                        ok = False
                        break
            if ok:
                return True
        return False

    def zero_polys(self, c):
        r = []
        for key, s in c.signs.items():
            if s != frozenset((0,)):
                continue
            try:
                p = c.ring.clear(dict(key))
            except TooBig:
                continue
            low = {}
            for m in p:
                for a, e in m:
                    if e < 0:
                        low[a] = min(low.get(a, 0), e)
            if low:
                k = tuple(sorted((a, -e) for a, e in low.items()))
                p = c.ring.mul(p, {k: Fr(1)})
            if any(c.ring.terms.get(a) is None for m in p for a, e in m):
                continue
            t = ZERO
            for n, k in p.items():
                z = rc(k)
                for x, e in n:
                    for _ in range(e):
                        z = rmul(z, c.ring.terms[x])
                t = radd(t, z)
            r.append(t)
        return r

    def poly_subst(self, c, ring, d):
        """reduce the polynomial d modulo the known equalities, each solved for one atom (atoms are opaque values here)"""
        for t in self.zero_polys(c):
            try:
                p = ring.poly(t)
            except (TooBig, ZeroDen):
                continue
            best = None
            seen = {a for m in d for a, e in m}
            cand = {}
            for m in p:
                for a, e in m:
                    if a in seen:
                        cand.setdefault(a, []).append((m, e))
            for a, l in sorted(cand.items(), key=lambda q: (len(q[1][0][0]), q[0])):
                if len(l) != 1 or l[0][1] != 1 or a in ring.qpoly or a in ring.special:
                    continue
                m = l[0][0]
                rest = tuple((x, e) for x, e in m if x != a)
                if any(self.atom_sign(c, ring, x) not in ("+", "-") for x, e in rest):
                    continue
                if any(e < 0 and x == a for n in d for x, e in n):
                    continue
                inv = {tuple((x, -e) for x, e in rest): Fr(-1) / p[m]}
                try:
                    y = ring.mul({n: k for n, k in p.items() if n != m}, inv)
                    r = {}
                    pw = {0: {(): Fr(1)}}
                    for n, k in d.items():
                        e = dict(n).get(a, 0)
                        for q in range(1, e + 1):
                            if q not in pw:
                                pw[q] = ring.mul(pw[q - 1], y)
                        r = ring.add(r, ring.mul({tuple(z for z in n if z[0] != a): k}, pw[e]))
                    r = ring.clear(r)
                except TooBig:
                    continue
                if not r:
                    return r
                if best is None or len(r) < len(best):
                    best = r
            if best is not None:
                d = best
        return d

    def atom_sign(self, c, ring, a):
        t = ring.terms.get(a)
        return self.sign(c, t) if t is not None else None

    def zero_subst(self, c):
        """solve the polynomial equalities known in c (as x <= y and y <= x, say) for one atom each"""
        out = {}
        for key, s in c.signs.items():
            if s != frozenset((0,)):
                continue
            try:
                p = c.ring.clear(dict(key))
            except TooBig:
                continue
            low = {}
            for m in p:
                for a, e in m:
                    if e < 0:
                        low[a] = min(low.get(a, 0), e)
            if low:
                k = tuple(sorted((a, -e) for a, e in low.items()))
                p = c.ring.mul(p, {k: Fr(1)})
            cand = {}
            for m in p:
                for a, e in m:
                    cand.setdefault(a, []).append((m, e))
            best = None
            for a, l in cand.items():
                t = c.ring.terms.get(a)
                if t is None or len(l) != 1 or l[0][1] != 1 or t.op not in ("rv", "app") or t in out or t is PI:
                    continue
                m = l[0][0]
                rest = [x for x, e in m if x != a]
                if any(c.asg(x) is None or 0 in c.asg(x) for x in rest):
                    continue
                others = set(x for n in p if n != m for x, e in n) | set(rest)
                if any(c.ring.terms.get(x) is None for x in others):
                    continue
                if any(t in set(atoms(c.ring.terms[x])) for x in others):
                    continue
                w = (len(rest), 0 if t.op == "app" else 1)
                if best is None or w < best[0]:
                    best = (w, a, t, m)
            if best is None:
                continue
            w, a, t, m = best
            y = ZERO
            for n, k in p.items():
                if n == m:
                    continue
                z = rc(-k / p[m])
                for x, e in n:
                    for _ in range(e):
                        z = rmul(z, c.ring.terms[x])
                y = radd(y, z)
            for x, e in m:
                if x != a:
                    for _ in range(e):
                        y = rdiv(y, c.ring.terms[x])
            ys = set(atoms(y))
            if any(k in ys for k in out) or any(t in set(atoms(v)) for v in out.values()):
                continue
            out[t] = y
        return out

    def nonzero(self, c, t):
        k = c.known(req(t, ZERO))
        if k is FALSE:
            return True
        s = self.sign(c, t)
        if s in ("+", "-"):
            return True
        r = self.cached_smt(c, bnot(req(t, ZERO)))
        return r

    def ge0(self, c, t):
        if c.known(rle(ZERO, t)) is TRUE:
            return True
        if self.sign(c, t) in ("+", "0+", "0"):
            return True
        return self.cached_smt(c, rle(ZERO, t))

    def cached_smt(self, c, g):
        key = (frozenset(c.h), g)
        d = self.e.ghost.setdefault("smtc", {})
        if key not in d:
            d[key] = self.smt(c, g, side=True).ok
        return d[key]

    # ---- signs
    def sign(self, c, t, memo=None):
        """'+', '-', '0', '0+', '0-', or None"""
        if memo is None:
            memo = {}
        if t in memo:
            return memo[t]
        memo[t] = None
        r = self._sign(c, t, memo)
        memo[t] = r
        return r

    def _sign(self, c, t, memo):
        op = t.op
        if op == "rc":
            v = t.args[0]
            return "+" if v > 0 else "-" if v < 0 else "0"
        k = c.skey(t, ZERO) if size(t) < 200 else None
        if k:
            s = c.sget(k[0])
            if s is not None:
                r = fs(frozenset(v * k[1] for v in s))
                if r in ("+", "-", "0"):
                    return r
                if r:
                    r2 = self._sign2(c, t, memo)
                    return r2 if r2 in ("+", "-", "0") else r
        return self._sign2(c, t, memo)

    def _sign2(self, c, t, memo):
        op = t.op
        if op == "radd":
            a, b = self.sign(c, t.args[0], memo), self.sign(c, t.args[1], memo)
            if a is None or b is None:
                return None
            if a == "0":
                return b
            if b == "0":
                return a
            if a[-1] == b[-1]:
                return a if len(a) <= len(b) and a in "+-" else b if b in "+-" else a
            return None
        if op in ("rmul", "rdiv"):
            x, y = t.args
            if op == "rmul" and x is y:
                s = self.sign(c, x, memo)
                return "+" if s in ("+", "-") else "0" if s == "0" else "0+"
            a, b = self.sign(c, x, memo), self.sign(c, y, memo)
            if op == "rdiv" and b not in ("+", "-"):
                return None
            if a == "0" or b == "0":
                return "0"
            if a is None or b is None:
                return None
            s = "+" if a[-1] == b[-1] else "-"
            return s if len(a) == 1 and len(b) == 1 else "0" + s
        if op == "app":
            fn = t.args[0]
            if fn == "sqrt":
                s = self.sign(c, t.args[1], memo)
                return "+" if s == "+" else "0+"
            if fn in ("exp",):
                return "+"
            if fn == "pow" and self.sign(c, t.args[1], memo) == "+":
                return "+"
            return None
        if op == "rite":
            a, b = self.sign(c, t.args[1], memo), self.sign(c, t.args[2], memo)
            if a == b:
                return a
            return None
        if op == "i2r":
            a = iatom(t.args[0])
            p = _St(c.ipc())
            if self.e.decide(p, ilt(ic(0), a)) is True:
                return "+"
            if self.e.decide(p, ile(ic(0), a)) is True:
                return "0+"
        return None

    def sign_leaf(self, c, g):
        neg = g.op == "not"
        x = g.args[0] if neg else g
        if x.op == "rle":
            a, b = x.args
            if neg:  # a > b
                d = rsub(a, b)
                return self.sign(c, d) == "+" or self.psign(c, d) == "+"
            d = rsub(b, a)
            return self.sign(c, d) in ("+", "0+", "0") or self.psign(c, d) in ("+", "0+")
        if x.op == "req" and neg:
            return self.sign(c, rsub(x.args[0], x.args[1])) in ("+", "-")
        return False

    def psign(self, c, t):
        """sign through the expanded polynomial"""
        if size(t) > 3000:
            return None
        ring = c.ring
        try:
            p = ring.poly(t)
        except (TooBig, ZeroDen):
            return None
        if len(p) > 500:
            return None
        best = "0"
        for m, k in p.items():
            s = c.mono_sign({m: k})
            if s is None:
                return None
            r = fs(s)
            if r is None:
                return None
            if any(a in ring.qpoly for a, e in m):
                return None
            if r == "0":
                continue
            if best == "0":
                best = r
            elif best[-1] != r[-1]:
                return None
            elif r in "+-":
                best = r
        # negative exponents need nonzero atoms: mono_sign used the atoms' known signs, which must exclude 0
        for m in p:
            for a, e in m:
                if e < 0 and (c.asg(a) is None or 0 in c.asg(a)):
                    return None
        return best

    # ---- SMT
    def gather(self, c, g):
        e = self.e
        hy = list(c.h)
        # relevance
        vs = set(e.vars_of(g))
        rel = list(hy) if g is FALSE else e.slice(hy, g)
        out = dict.fromkeys(rel)
        fs_ = {}
        for t in [g] + rel:
            for f in e.facts_for(t):
                fs_[f] = None
        for f in fs_:
            out[f] = None
        from builtins_ import PI_FACTS

        if any(PI in e.vars_of(t) for t in list(out) + [g]):
            for f in PI_FACTS:
                out[f] = None
        return [c2 for c2 in out]

    def abstract(self, c, cs, hs, ng):
        """linear reasoning over opaque non-linear terms: a quotient or product is just a name here"""
        if is_int_only(ng) or not any(x.op in ("rdiv", "rmul") and not any(y.op == "rc" for y in x.args) for h in [ng] for x in subterms(h)):
            return False
        out = []
        for h in hs:
            if has_ite(h):
                a = cs.asm.pop(h, None)
                h2 = cs.simp(h)
                if a is not None:
                    cs.asm[h] = a
                h = h if h2 is TRUE else h2
            out.append(h)
        pur = Purify(self.e, opaque=True)
        s = z3.SimpleSolver()
        s.set("timeout", 1500)
        s.add(*[pur.tr(h) for h in out])
        s.add(pur.tr(ng))
        return s.check() == z3.unsat

    def smt(self, c, g, side=False):
        t0 = time.time()
        e = self.e
        hs = self.gather(c, g)
        # simplify hypotheses under unit knowledge (drops decided ites)
        cs = c.clone()
        hs2 = []
        for h in hs:
            if h in c.hs:
                # simplify below the top level
                if h.op in ("or", "not", "rle", "req") and has_ite(h):
                    a = cs.asm.pop(h, None)
                    hs2.append(h)
                    if a is not None:
                        cs.asm[h] = a
                else:
                    hs2.append(h)
            else:
                s = cs.simp(h) if h.op in ("or", "and") else h
                if s is FALSE:
                    self.by.add("simp")
                    return Result(True)
                if s is not TRUE:
                    hs2.append(s)
                elif texts(h):
                    # known here, but not among the hypotheses
                    hs2.append(h)
        ng = bnot(g)
        if not side and self.abstract(c, cs, hs2, ng):
            STATS["z3"] += 1
            self.by.add("z3")
            STATS["z3_time"] += time.time() - t0
            return Result(True)
        pur = Purify(e)
        fs_ = [pur.tr(h) for h in hs2]
        fg = pur.tr(ng)
        cong = pur.congruence(c, g)
        tmo = self.timeout if not side else min(self.timeout, 5)
        left = self.deadline - time.time()
        if left <= 0:
            return Result(False, why="time budget")
        tmo = min(tmo, max(left, 0.5))
        model = None
        res = z3.unknown
        pure = [f for f, h in zip(fs_, hs2) if not pur.hasint(h)]
        # 1. nlsat on the pure real part
        why = "unknown"
        if not pur.hasint(ng):
            try:
                s = z3.Tactic("qfnra-nlsat").solver()
                s.set("timeout", int(min(tmo, 4) * 1000))
                s.add(*pure)
                s.add(*pur.defs)
                s.add(fg)
                r = s.check()
                if r == z3.unsat:
                    STATS["nlsat"] += 1
                    self.by.add("z3-nlsat")
                    STATS["z3_time"] += time.time() - t0
                    return Result(True)
                if r == z3.sat and len(pure) == len(fs_) and not cong:
                    res = r
                    model = s.model()
            except z3.Z3Exception:
                pass
        if res != z3.sat:
            # several short attempts: the search for a proof depends much on the order in which it starts
            r = z3.unknown
            for k, share in enumerate((0.08, 0.08, 0.08, 0.08, 0.08, 0.6)) if not side else ((0, 1.0),):
                s = z3.SimpleSolver()
                s.set("timeout", max(200, int(tmo * share * 1000)))
                if k:
                    s.set("random_seed", 7 * k)
                rot = (k // 2) * len(fs_) // 3
                fk = fs_[rot:] + fs_[:rot]
                s.add(*(fk if k % 2 == 0 else fk[::-1]))
                s.add(*pur.defs)
                s.add(*cong)
                s.add(fg)
                r = s.check()
                if r != z3.unknown:
                    break
            if r == z3.unsat:
                STATS["z3"] += 1
                self.by.add("z3")
                STATS["z3_time"] += time.time() - t0
                return Result(True)
            if r == z3.sat:
                res = r
                model = s.model()
            elif self.ext and not side and time.time() < self.deadline:
                sm = "(set-logic ALL)\n" + s.to_smt2()
                k = run_ext(sm, min(self.timeout * 2, max(1, self.deadline - time.time())))
                if k[0] == "unsat":
                    STATS[k[1]] += 1
                    self.by.add(k[1])
                    STATS["z3_time"] += time.time() - t0
                    return Result(True)
                why = "%s" % (k,)
        STATS["z3_time"] += time.time() - t0
        if not side and g is not FALSE and len(e.slice(c.h, g)) < len(c.h):
            # the hypotheses that have nothing to do with the goal may contradict each other
            if self.smt(c, FALSE).ok:
                return Result(True)
        if res == z3.sat:
            return Result(False, model=(model, pur), why="counterexample", leaf=(c, g))
        return Result(False, why=why, leaf=(c, g))


def fs(s):
    if s == {1}:
        return "+"
    if s == {-1}:
        return "-"
    if s == {0}:
        return "0"
    if s == {0, 1}:
        return "0+"
    if s == {0, -1}:
        return "0-"
    return None


class Purify:
    """z3 translation with every uninterpreted application replaced by a constant; divisions defined by multiplication"""

    def __init__(self, eng, opaque=False):
        self.e = eng
        self.opaque = opaque
        self.memo = {}
        self.defs = []
        self.apps = {}
        self.hi = {}

    def hasint(self, t):
        r = self.hi.get(t)
        if r is None:
            if t.sort == "I":
                r = True
            elif t.op == "app" and t.sort != "I":
                r = False
            elif t.op == "i2r":
                r = False
            else:
                r = any(self.hasint(c) for c in children(t))
            self.hi[t] = r
        return r

    def tr(self, t):
        memo = self.memo
        st = [t]
        while st:
            x = st[-1]
            if x in memo:
                st.pop()
                continue
            if x.op == "app" or (self.opaque and x.op in ("rdiv", "rmul") and not any(y.op == "rc" for y in x.args)):
                memo[x] = self.const(x)
                st.pop()
                continue
            todo = [c for c in children(x) if c not in memo]
            if todo:
                st.extend(todo)
                continue
            memo[x] = self.t1(x)
            st.pop()
        return memo[t]

    def const(self, x):
        n = "a!%d" % x.id
        v = z3.Real(n) if x.sort == "R" else z3.Int(n) if x.sort == "I" else z3.Bool(n)
        self.apps[x] = v
        return v

    def t1(self, x):
        m = self.memo
        op = x.op
        a = [m[c] for c in children(x)]
        if op == "lin":
            r = None
            for (at, k), z in zip(x.args[1], a):
                y = z if k == 1 else k * z
                r = y if r is None else r + y
            c = x.args[0]
            if r is None:
                return z3.IntVal(c)
            return r + c if c else r
        if op == "rdiv":
            if a[1].eq(z3.RealVal(0)):
                return z3.Real("d!%d" % x.id)
            v = z3.Real("d!%d" % x.id)
            self.defs.append(z3.Implies(a[1] != 0, v * a[1] == a[0]))
            self.apps[x] = v
            return v
        if op == "i2r":
            # keep the integer link only through a separate definition
            v = z3.Real("r!%d" % x.id)
            self.apps[x] = v
            self.link = getattr(self, "link", [])
            self.link.append(v == z3.ToReal(a[0]))
            return v
        save = self.e.zc
        self.e.zc = m
        try:
            return self.e._z1(x)
        finally:
            self.e.zc = save

    def congruence(self, c, g=None):
        out = list(getattr(self, "link", []))
        by = {}
        for x in list(self.apps):
            if x.op == "app":
                by.setdefault((x.args[0], len(x.args)), []).append(x)
        n = 0
        mine = set(atoms(g)) if g is not None else ()
        for k, l in by.items():
            if len(l) < 2:
                continue
            if len(l) > 40:
                l.sort(key=lambda x: x not in mine)
                l = l[:40]
            for i in range(len(l)):
                for j in range(i):
                    p, q = l[i], l[j]
                    eqs = []
                    dead = False
                    for x, y in zip(p.args[1:], q.args[1:]):
                        if x is y:
                            continue
                        q_ = eq(x, y)
                        if q_ is FALSE:
                            dead = True
                            break
                        if is_int_only(q_):
                            d = self.e.decide(_St(c.ipc()), q_)
                            if d is False:
                                dead = True
                                break
                            if d is True:
                                continue
                        eqs.append(q_)
                    if dead:
                        continue
                    n += 1
                    if n > 400:
                        return out
                    zq = [self.tr(x) for x in eqs]
                    z = self.memo[p] == self.memo[q] if p in self.memo and q in self.memo else self.tr(p) == self.tr(q)
                    out.append(z3.Implies(z3.And(*zq), z) if zq else z)
        out += [x for x in getattr(self, "link", []) if x not in out] if False else []
        return out


def run_ext(sm, tmo):
    """z3-new and cvc5 in parallel on the same script"""
    f = tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False)
    f.write(sm)
    f.close()
    ps = []
    try:
        for nm, cmd in (("z3-new", ["z3-new", "-T:%d" % max(1, int(tmo)), f.name]), ("cvc5", ["cvc5", "--tlimit=%d" % int(tmo * 1000), f.name])):
            try:
                ps.append((nm, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
            except OSError:
                pass
        t0 = time.time()
        while ps and time.time() - t0 < tmo + 2:
            for nm, p in list(ps):
                if p.poll() is not None:
                    o = p.stdout.read().strip().split("\n")[0] if p.stdout else ""
                    ps.remove((nm, p))
                    if o in ("unsat", "sat"):
                        return (o, nm)
            time.sleep(0.01)
        return ("unknown", "")
    finally:
        for nm, p in ps:
            p.kill()
            p.wait()
        os.unlink(f.name)


def quick(eng, pc, goal, timeout=3.0):
    if goal is TRUE:
        return True
    p = Prover(eng, timeout=timeout, budget=timeout * 3, ext=False, maxleaves=200)
    return p.prove(pc, goal).ok


def prove(eng, pc, goal, timeout=10.0, budget=60.0):
    p = Prover(eng, timeout=timeout, budget=budget)
    return p.prove(pc, goal)
