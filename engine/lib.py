"""Questions the rules ask about an analysed entry point.

All answers are about gated values: decision diagrams over canonical conditions whose leaves are
hash-consed terms.  `same` and `must` decide by normal form and by splitting on the conditions that
occur inside the compared terms; nothing is executed and no solver is involved."""
import os
import sys
import terms as T
import models as M
import cuts as C
from terms import (mk, INT, BYTES, app, proj, gate, ungate, select, TRUE, FALSE, UNIT, band, bor, bnot,
                   implies, feasible, restrict, Term, Node)
from program import Program
from interp import Interp

SELF = mk("const", "self_storage")
NOPAY = mk("const", "no_payment")


def arg(i):
    return mk("arg", i)


def env(n):
    return mk("env", n)


sys.setrecursionlimit(100000)


# judge effects only in transactions that are not rolled back: what happens before a failure leaves no trace
COMMITTED = False


class Run:
    """one analysed function"""

    def __init__(self, W, crate, name, fn, cuts, args=None):
        self.W, self.crate, self.name, self.fn = W, crate, name, fn
        self.I = Interp(W.P, crate, cuts)
        if args is not None:
            full = [self.I.param(fn, i) for i in range(fn.argc)]
            for i, a in args.items():
                full[i] = a
            args = full
        r = self.I.run(fn, args)
        self.ok = r is not None
        self.val, self.pc, self.mem = r if r is not None else (UNIT, FALSE, {})
        self.events = self.I.events
        if COMMITTED:
            for e in self.events:
                e.pc = band(e.pc, self.rounds(e), self.pc)

    def rounds(self, e):
        """the loop rounds the event is in are not rolled back"""
        out = TRUE
        for l in e.loops:
            if l in self.I.loops:
                coll, pc, early, end, bpc = self.I.loops[l]
                out = band(out, bor(bpc, early))
        return out

    def result(self):
        r = self.of("result")
        return r[-1].value if r else None

    def of(self, *kinds):
        return [e for e in self.events if e.kind in kinds]

    def final(self, base, *args, addr=SELF):
        k = skey(base, *args)
        v = self.mem.get(("S", k, addr))
        return v if v is not None else mk("sload", k, addr)

    def moves(self):
        """every effect that sends tokens out: (event, to, token, amount, nonce)"""
        out = []
        for e in self.of("transfer", "call"):
            if e.pay is NOPAY:
                continue
            out.append((e, e.to, proj(e.pay, "token_identifier"), proj(e.pay, "amount"), proj(e.pay, "token_nonce")))
        return out

    def stores(self, base=None):
        return [e for e in self.of("store") if base is None or keybase(e.key) == base]

    def where(self):
        return f"{self.fn.d.get('file', '?')} {self.crate}::{self.name}"


class World:
    def __init__(self, mirdir):
        self.P = Program(mirdir)
        self.runs = {}

    def ep(self, crate, name, cuts=None):
        k = (crate, name, id(cuts) if cuts is not None else 0)
        r = self.runs.get(k)
        if r is None:
            f = self.P.endpoints(crate).get(name)
            if f is None:
                raise Missing(f"entry point {crate}::{name}")
            r = self.runs[k] = Run(self, crate, name, f, C.CUTS if cuts is None else cuts)
        return r

    def fn(self, crate, path, cuts=None, args=None):
        k = (crate, path, "fn", id(cuts) if cuts is not None else 0, tuple(sorted((i, a.id) for i, a in (args or {}).items())))
        r = self.runs.get(k)
        if r is None:
            f = self.P.fns.get(path)
            if f is None:
                c = [x for x in self.P.find(path)]
                if not c:
                    raise Missing(f"function {path}")
                f = c[0]
            r = self.runs[k] = Run(self, crate, path, f, C.CUTS if cuts is None else cuts, args)
        return r

    def all_eps(self, crate):
        return sorted(self.P.endpoints(crate))


def topics(e):
    """(event name, [indexed values])"""
    t = [x for x in e.topics.args[1:] if isinstance(x, Term)]
    n = t[0]
    name = None
    if n.op == "struct" and n.args[0] == "[]":
        try:
            name = bytes(x.args[0] for x in n.args[3:]).decode()
        except Exception:
            name = None
    elif n.op == "bytes":
        name = n.args[0]
    return name, t[1:]


def dmul(a, b):
    return M.dec(T.mul_g(raw(a), raw(b)), T.add(proj(a, "scale"), proj(b, "scale")))


def ddiv(a, b):
    return M.dec(T.lift2(raw(a), raw(b), lambda x, y: M.decdiv(x, y, proj(b, "scale"))), proj(a, "scale"))


class Missing(Exception):
    pass


# ------------------------------------------------------------------ keys and terms
def skey(base, *args):
    return mk("skey", BYTES(base), *args)


def keybase(k):
    if k.op == "skey" and k.args[0].op == "bytes":
        b = k.args[0].args[0]
        return b if isinstance(b, str) else b.decode()
    return None


def load(base, *args, addr=SELF):
    return mk("sload", skey(base, *args), addr)


def raw(t):
    return proj(t, "raw")


def hu(name, a, b, p):
    """half-up product / quotient as the analysis names it"""
    return C.hu(name, a, b, INT(p) if isinstance(p, int) else p)


def mulhu(a, b, p=27):
    return hu("mul_half_up", a, b, p)


def divhu(a, b, p=27):
    return hu("div_half_up", a, b, p)


def resc(a, p):
    return C.resc(a, INT(p) if isinstance(p, int) else p)


def dec(r, s):
    return M.dec(r if isinstance(r, Term) else INT(r), s if isinstance(s, Term) else INT(s))


def dadd(a, b):
    x, y, s = M.align(a, b)
    return M.dec(T.add(x, y), s)


def dsub(a, b):
    x, y, s = M.align(a, b)
    return M.dec(T.sub(x, y), s)


def dlt(a, b):
    x, y, _ = M.align(a, b)
    return T.lt(x, y)


def dle(a, b):
    return bnot(dlt(b, a))


def dsel(c, a, b):
    return select(c, a, b)


def iszero(a):
    return T.eqnum(raw(a), INT(0))


# ------------------------------------------------------------------ deciding
def reduce(t, c):
    """t under the condition c: every gate inside is narrowed by c"""
    if c is TRUE:
        return t
    changed = t
    for _ in range(4):
        def f(x):
            if x.op == "elem" and x.args[0].op == "gate":
                return x
            if x.op in ("gate", "bool"):
                d = restrict(x.args[0], c)
                if d is not x.args[0]:
                    return reduce_(T.gate(d) if d is not TRUE and d is not FALSE else T.boolval(d), c)
            return None

        def reduce_(x, c):
            return x if x.op not in ("gate",) else x
        n = T.rebuild(changed, f)[0]
        if n is changed:
            break
        changed = n
    return changed


T.reduce_hook = reduce


def inner_atoms(t, c=None, opened=frozenset()):
    """an undecided condition atom occurring in a gate inside t, outermost first (none about elements of a list still bound)"""
    seen = set()
    st = [t]
    while st:
        x = st.pop(0)
        if not isinstance(x, Term) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "elem" and x.args[0].op == "gate":
            continue
        if x.op in ("gate", "bool"):
            s = T.support(x.args[0])
            for v in sorted(s):
                lit = T.node(v, TRUE, FALSE)
                if not T.free(lit) <= opened:
                    continue
                if c is None:
                    return v
                if band(c, lit) is not c and band(c, bnot(lit)) is not c:
                    return v
            st += [l for l in T.leaves(x.args[0]) if isinstance(l, Term)]
        else:
            for a in x.args:
                if isinstance(a, Term):
                    st.append(a)
                elif isinstance(a, tuple):
                    for q in a:
                        if isinstance(q, Term):
                            st.append(q)
                        elif isinstance(q, tuple):
                            st += [z for z in q if isinstance(z, Term)]
    return None


def numericish(t):
    return t.op in ("int", "lin") or t.op == "proj" and t.args[1] in ("raw", "amount") or t.op == "app" and T.unsigned(t)


def extreme(t, opened=frozenset()):
    return next((x for x in T.subterms(t) if x.op == "app" and x.args[0] in ("min", "max") and len(x.args) == 3
                 and T.free(x) <= opened), None)


ROUNDED = ("mul_half_up", "div_half_up", "mul_half_up_signed", "div_half_up_signed", "rescale", "rescale_half_up")


class Budget(Exception):
    pass


def diff(pc, a, b, budget=4000):
    """None when a and b have the same value wherever pc holds; else (condition, a', b')"""
    n = [0]
    memo = set()
    tied = set()

    def go(c, x, y, opened=frozenset()):
        n[0] += 1
        if n[0] > budget:
            return (c, x, y)
        if x is y or not feasible(c):
            return None
        x, y = reduce(x, c), reduce(y, c)
        if x is y:
            return None
        k = (c.id, x.id, y.id)
        if k in memo:
            return None
        r = step(c, x, y, opened)
        if r is None:
            memo.add(k)
        return r

    def step(c, x, y, opened):
        vs = [z for z in (inner_atoms(x, c, opened), inner_atoms(y, c, opened)) if z is not None]
        if vs:
            at = T.node(min(vs), TRUE, FALSE)
            for lit in (at, bnot(at)):
                r = go(band(c, lit), x, y, opened)
                if r:
                    return r
            return None
        if x.op == "struct" and y.op == "struct" and x.args[:3] == y.args[:3]:
            for p, q in zip(x.args[3:], y.args[3:]):
                r = go(c, p, q, opened)
                if r:
                    return r
            return None
        if numericish(x) and numericish(y) and not feasible(band(c, bnot(T.eqnum(x, y)))):
            return None
        m = extreme(x, opened) or extreme(y, opened)
        if m is not None:
            # the smaller / larger of two values: settle which one it is
            u, w = m.args[1:3]
            if u.op == "int":
                u, w = w, u          # a tie counts as the constant
            least = T.lt(u, w) if m.args[0] == "min" else T.lt(w, u)
            for lit, v in ((least, u), (bnot(least), w)):
                r = go(band(c, lit), *[T.rebuild(z, lambda t: v if t is m else None)[0] for z in (x, y)], opened)
                if r:
                    return r
            return None
        if congruent(c, x, y, opened):
            return None
        d = rednode(c, c)
        if d is not c:
            return go(d, x, y, opened)
        # amounts that can only be nothing here
        zeros = {T.ATOMS[v][1][0][0] for v in T.support(c) if T.ATOMS[v][0] == "gt0" and T.ATOMS[v][2] == 0 and len(T.ATOMS[v][1]) == 1}
        nil = {a for z in (x, y) for t in T.subterms(z) if t.op == "app" and t.args[0] in ROUNDED for a in t.args[1:4:2]
               if isinstance(a, T.Term) and a in zeros and T.free(a) <= opened and not feasible(band(c, bnot(T.eqnum(a, INT(0)))))}
        nil |= {a for z in (x, y) for t in T.subterms(z) if t.op == "app" and t.args[0] in ROUNDED for a in t.args[1:2]
               if a.op == "lin" and a.args[0] == 0 and len(a.args[1]) < 5 and T.free(a) <= opened and not feasible(band(c, bnot(T.eqnum(a, INT(0)))))}
        if nil:
            return go(c, *[T.rebuild(z, lambda t: INT(0) if t in nil else None)[0] for z in (x, y)], opened)
        # a smaller / larger of two values that conditions speak of, settled by the case distinction
        big = {t for v in T.support(c) for q in T.ATOMS[v][1:2] if T.ATOMS[v][0] == "gt0" for p in q for t in T.subterms(p[0])
               if t.op == "app" and t.args[0] in ("min", "max") and len(t.args) == 3 and T.free(t) <= opened}
        for m in sorted(big, key=lambda t: t.id) if n[0] < 600 else ():
            u, w = m.args[1:3]
            least = T.lt(u, w) if m.args[0] == "min" else T.lt(w, u)
            for lit, v in ((least, u), (bnot(least), w)):
                if not feasible(band(c, bnot(lit))):
                    sub = lambda z: v if z is m else None
                    return go(T.truth(T.rebuild(T.boolval(c), sub)[0]), T.rebuild(x, sub)[0], T.rebuild(y, sub)[0], opened)
        # amounts that are the same here: one stands for the other
        for tie, t, u in ties(c) if n[0] < 600 else ():
            if (tie.id, t) in tied or T.free(t) - opened:
                continue
            c1, c2 = band(c, tie), band(c, bnot(tie))
            tied.add((tie.id, t))
            sub = lambda z: u if z is t else None
            try:
                r = go(T.truth(T.rebuild(T.boolval(c1), sub)[0]), T.rebuild(x, sub)[0], T.rebuild(y, sub)[0], opened)
                return r if r is not None else go(c2, x, y, opened)
            finally:
                tied.discard((tie.id, t))
        return (c, x, y)

    def congruent(c, x, y, opened):
        """same operation applied to parts that are equal one by one (a list total: element by element)"""
        if x.op != y.op or len(x.args) != len(y.args) or x.op in ("gate", "bool", "bnd", "lvb"):
            return False
        if x.op == "lin":
            p, q = dict(x.args[1]) if isinstance(x.args[1], tuple) else {}, dict(y.args[1]) if isinstance(y.args[1], tuple) else {}
            if not p or x.args[0] != y.args[0]:
                return False
            only = [z for z in p if p[z] != q.get(z)], [z for z in q if q[z] != p.get(z)]
            return len(only[0]) == len(only[1]) == 1 and p[only[0][0]] == q[only[1][0]] and go(c, only[0][0], only[1][0], opened) is None
        binder = x.op == "sum" or x.op == "app" and x.args[0] in ("mapped", "filtered")
        for i, (p, q) in enumerate(zip(x.args, y.args)):
            if p is q or not isinstance(p, T.Term) and p == q:
                continue
            if not isinstance(p, T.Term) or not isinstance(q, T.Term):
                return False
            o = opened
            if binder and i == len(x.args) - 1:
                f, g = T.free(p), T.free(q)
                if x.op != "sum" or not f or not g or min(f) != min(g):
                    return False
                o = opened | {min(f)}
            if go(c, p, q, o) is not None:
                return False
        return True

    return go(pc, a, b)


def ties(c):
    """(condition, t, u): amounts t and u are the same under the condition, which a case distinction left open or settled"""
    by = {}
    for v in T.support(c):
        a = T.ATOMS[v]
        if a[0] == "gt0":
            by.setdefault(a[1], {})[a[2]] = v
    for ts, ks in by.items():
        for k, v in ks.items():
            if k + 1 in ks and len(ts) < 7:
                tie = band(T.node(ks[k + 1], TRUE, FALSE), bnot(T.node(v, TRUE, FALSE)))
                if not feasible(band(c, tie)):
                    continue
                for t, q in sorted(ts, key=lambda z: -z[0].id):
                    if abs(q) == 1:
                        rest = T.from_lin(-k * q, {z: -w * q for z, w in ts if z is not t})
                        if not T.contains(rest, lambda z: z is t):
                            yield tie, t, rest
                            break


def same(pc, a, b):
    return diff(pc, a, b) is None


def must(pc, cond):
    """cond holds wherever pc does (with conditions inside the atoms of cond split out)"""
    return counter(pc, cond) is None


def counter(pc, cond, budget=3000):
    n = [0]

    def go(c, d):
        n[0] += 1
        bad = band(c, bnot(d))
        if bad is FALSE or not feasible(bad):
            return None
        if n[0] > budget:
            return bad
        # atoms whose terms still contain gates: split on those
        for v in sorted(T.support(bad)):
            a = T.ATOMS[v]
            for q in a[1:]:
                for t in ([q] if isinstance(q, Term) else [z for p in q for z in p if isinstance(z, Term)] if isinstance(q, tuple) and q and isinstance(q[0], tuple) else []):
                    w = inner_atoms(t)
                    if w is not None and a[0] not in ("forall", "exists"):
                        lit = T.node(w, TRUE, FALSE)
                        for L in (lit, bnot(lit)):
                            c2 = band(bad, L)
                            if not feasible(c2):
                                continue
                            r = go(rednode(c2, c2), rednode(d, c2))
                            if r is not None:
                                return r
                        return None
        return bad
    return go(pc, cond)


def rednode(d, c):
    """a condition with the gates inside its atoms narrowed by c"""
    lits = forced(c)
    if not lits:
        return d

    def f(x):
        if x.op == "elem" and x.args[0].op == "gate":
            return x
        if x.op in ("gate", "bool"):
            n = restrict(x.args[0], c)
            if n is not x.args[0]:
                return T.gate(n) if n is not TRUE and n is not FALSE else T.boolval(n)
        return None
    _, gon = T.rebuild(INT(0), f)
    r = gon(d)
    return band(r, c) if d is c else r


def forced(c):
    return c is not TRUE


def show(t, d=6):
    return T.show(t, d) if isinstance(t, Term) else T.showb(t, d)
