"""Hash-consed value terms, boolean decision diagrams over atomic conditions, and gated values.

A value is a Term.  A Term with op 'gate' is a multi-terminal decision diagram: the value a
variable has depending on which branch of the program defined it (gated SSA).  A boolean is a
decision diagram with leaves TRUE/FALSE.  Both share one node type, so two differently
structured pieces of code that select the same values under the same conditions get the same
node."""
import math
import sys

sys.setrecursionlimit(20000)


class Term:
    __slots__ = ("op", "args", "id", "_h", "sup")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


class Node:
    """decision node: var (atom index), hi, lo; leaves are Terms (values) or the two bools"""
    __slots__ = ("var", "hi", "lo", "id")


_terms = {}
_nodes = {}
_cnt = [0]


def mk(op, *args):
    key = (op,) + args
    t = _terms.get(key)
    if t is None:
        t = Term()
        t.op, t.args = op, args
        _cnt[0] += 1
        t.id = _cnt[0]
        t.sup = None
        _terms[key] = t
    return t


TRUE = mk("TRUE")
FALSE = mk("FALSE")
UNIT = mk("unit")
UNINIT = mk("uninit")

# ------------------------------------------------------------------ atoms
ATOMS = []          # index -> (kind, payload...)
_atom_ix = {}


def atom(kind, *payload):
    k = (kind,) + payload
    i = _atom_ix.get(k)
    if i is None:
        i = len(ATOMS)
        ATOMS.append(k)
        _atom_ix[k] = i
    return node(i, TRUE, FALSE)


def node(var, hi, lo):
    if hi is lo:
        return hi
    if type(hi) is Term and type(lo) is Term:
        a = ATOMS[var]
        if a[0] == "eq" and (a[1] is hi and a[2] is lo or a[1] is lo and a[2] is hi):
            return lo           # if a == b then a else b
    k = (var, hi.id, lo.id)
    n = _nodes.get(k)
    if n is None:
        n = Node()
        n.var, n.hi, n.lo = var, hi, lo
        _cnt[0] += 1
        n.id = _cnt[0]
        _nodes[k] = n
    return n


def top(*ns):
    v = None
    for n in ns:
        if isinstance(n, Node) and (v is None or n.var < v):
            v = n.var
    return v


def cof(n, v, b):
    if isinstance(n, Node) and n.var == v:
        return n.hi if b else n.lo
    return n


_ite_memo = {}


def ite(c, a, b):
    """c: bool diagram; a, b: diagrams with any leaves"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    k = (c.id, a.id, b.id)
    r = _ite_memo.get(k)
    if r is None:
        v = top(c, a, b)
        r = node(v, ite(cof(c, v, 1), cof(a, v, 1), cof(b, v, 1)),
                 ite(cof(c, v, 0), cof(a, v, 0), cof(b, v, 0)))
        _ite_memo[k] = r
    return r


def band(*xs):
    r = TRUE
    for x in xs:
        r = ite(r, x, FALSE)
    return r


def bor(*xs):
    r = FALSE
    for x in xs:
        r = ite(r, TRUE, x)
    return r


def bnot(x):
    return ite(x, FALSE, TRUE)


def biff(a, b):
    return ite(a, b, bnot(b))


_restrict_memo = {}


def restrict(f, c):
    """simplify f using care set c (Coudert-Madre restrict)"""
    if c is TRUE or not isinstance(f, Node):
        return f
    if c is FALSE:
        return f
    k = (f.id, c.id)
    r = _restrict_memo.get(k)
    if r is not None:
        return r
    if c.var < f.var:
        r = restrict(f, bor(c.hi, c.lo))
    elif c.var == f.var:
        if c.hi is FALSE:
            r = restrict(f.lo, c.lo)
        elif c.lo is FALSE:
            r = restrict(f.hi, c.hi)
        else:
            r = node(f.var, restrict(f.hi, c.hi), restrict(f.lo, c.lo))
    else:
        r = node(f.var, restrict(f.hi, c), restrict(f.lo, c))
    _restrict_memo[k] = r
    return r


def exists(f, vars_):
    memo = {}

    def go(n):
        if not isinstance(n, Node):
            return n
        r = memo.get(n.id)
        if r is None:
            h, l = go(n.hi), go(n.lo)
            r = bor(h, l) if n.var in vars_ else ite(node(n.var, TRUE, FALSE), h, l)
            memo[n.id] = r
        return r
    return go(f)


def support(f):
    seen, out, st = set(), set(), [f]
    while st:
        n = st.pop()
        if isinstance(n, Node) and n.id not in seen:
            seen.add(n.id)
            out.add(n.var)
            st += [n.hi, n.lo]
    return out


def leaves(f):
    seen, out, st = set(), [], [f]
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if isinstance(n, Node):
            st += [n.lo, n.hi]
        else:
            out.append(n)
    return out


def map_leaves(f, fn):
    """apply fn(leaf)->diagram at leaves"""
    memo = {}

    def go(n):
        r = memo.get(n.id)
        if r is None:
            if isinstance(n, Node):
                r = ite(node(n.var, TRUE, FALSE), go(n.hi), go(n.lo))
            else:
                r = fn(n)
            memo[n.id] = r
        return r
    return go(f)


# ------------------------------------------------------------------ theory of atoms
# ('gt0', linkey): sum > 0 ; same variable part with different constants is a threshold chain
# ('is', term, k, n): discriminant index k among n (encoded in order)
def theory(vars_):
    """conjunction of facts relating the given atoms"""
    r = TRUE
    by = {}
    eqs = {}
    for v in vars_:
        a = ATOMS[v]
        if a[0] == "gt0":
            by.setdefault(a[1], []).append((a[2], v))
        elif a[0] == "eq":
            eqs.setdefault(a[1].id, []).append((a[2], v))
            eqs.setdefault(a[2].id, []).append((a[1], v))
    for lst in by.values():
        lst.sort()
        # x + c1 > 0  =>  x + c2 > 0 when c1 <= c2
        for (c1, v1), (c2, v2) in zip(lst, lst[1:]):
            r = band(r, ite(node(v1, TRUE, FALSE), node(v2, TRUE, FALSE), TRUE))
    if 1 < len(by) <= 40:
        ks = list(by)
        for i, p in enumerate(ks):
            dp = {t.id: (t, n) for t, n in p}
            for q in ks:
                if q is p or not any(t.id in dp for t, _ in q):
                    continue
                # q's expression exceeds p's by a sum of non-negative quantities
                dq = {t.id: (t, n) for t, n in q}
                ok = True
                for tid in set(dp) | set(dq):
                    t = (dp.get(tid) or dq.get(tid))[0]
                    e = dq.get(tid, (t, 0))[1] - dp.get(tid, (t, 0))[1]
                    if e < 0 or e > 0 and not unsigned(t):
                        ok = False
                        break
                if ok:
                    for c1, v1 in by[p]:
                        for c2, v2 in by[q]:
                            if c2 >= c1:
                                r = band(r, ite(node(v1, TRUE, FALSE), node(v2, TRUE, FALSE), TRUE))
    if 2 < len(by) <= 24:
        r = band(r, sums(by))
    pair = {}
    for x, lst in eqs.items():
        for y, v in lst:
            pair[x, y.id] = v
    for lst in eqs.values():
        for i in range(len(lst)):
            for j in range(i + 1, len(lst)):
                a, b = lst[i][0], lst[j][0]
                v = pair.get((a.id, b.id))
                if v is not None:       # equality is transitive
                    r = band(r, ite(band(node(lst[i][1], TRUE, FALSE), node(lst[j][1], TRUE, FALSE)), node(v, TRUE, FALSE), TRUE))
                if is_const(a) and is_const(b) and a is not b:
                    r = band(r, bnot(band(node(lst[i][1], TRUE, FALSE), node(lst[j][1], TRUE, FALSE))))
    return r


def sums(by):
    """x > a and y > b bound x + y and x - y, where those are compared with something too"""
    r = TRUE
    short = sorted((p for p in by if len(p) <= 4), key=lambda p: [(t.id, n) for t, n in p])
    for i, p in enumerate(short):
        dp = dict(p)
        for q in short[i + 1:]:
            if not any(t in dp for t, _ in q) and not (len(p) == len(q) == 1):
                continue
            for sp, sq in ((1, 1), (1, -1), (-1, 1), (-1, -1)):
                d = {t: sp * n for t, n in p}
                for t, n in q:
                    d[t] = d.get(t, 0) + sq * n
                e = tuple(sorted(((t, n) for t, n in d.items() if n), key=lambda x: x[0].id))
                for cr, vr in by.get(e, ()) if e not in (p, q) else ():
                    for cp, vp in by[p]:
                        lp = 1 - cp if sp > 0 else cp
                        for cq, vq in by[q]:
                            if lp + (1 - cq if sq > 0 else cq) >= 1 - cr:
                                a = node(vp, TRUE, FALSE) if sp > 0 else node(vp, FALSE, TRUE)
                                b = node(vq, TRUE, FALSE) if sq > 0 else node(vq, FALSE, TRUE)
                                r = band(r, ite(band(a, b), node(vr, TRUE, FALSE), TRUE))
    return r


def unsigned(t):
    """t is a quantity that cannot be negative"""
    if t.id in SIGNED:
        return False
    if t.op == "app":
        return not (t.args[0].endswith("_s") or t.args[0].endswith("signed")) and t.args[0] in (
            "mul_half_up", "div_half_up", "rescale_half_up", "rescale", "mul", "div", "balance", "min", "max", "len")
    if t.op == "proj":
        return t.args[1] in ("raw", "amount")
    return t.op in ("sload", "balance", "sum", "env")


def is_const(t):
    return t.op in ("int", "bytes", "const")


def implies(p, q):
    """p => q, modulo the theory of the atoms involved"""
    d = band(p, bnot(q))
    if d is FALSE:
        return True
    sup = support(d)
    return band(d, theory(sup)) is FALSE


def feasible(p):
    if p is FALSE:
        return False
    return band(p, theory(support(p))) is not FALSE


# ------------------------------------------------------------------ constructors
def INT(n):
    return mk("int", int(n))


def BYTES(s):
    return mk("bytes", s)


def app(f, *args):
    return mk("app", f, *args)


def boolval(b):
    """wrap a bool diagram as a value term"""
    return mk("bool", b)


def gate(d):
    """diagram -> value term"""
    if isinstance(d, Node):
        if all(x in (TRUE, FALSE) for x in leaves(d)):
            return boolval(d)
        # min / max recognition
        if not isinstance(d.hi, Node) and not isinstance(d.lo, Node):
            m = _minmax(d)
            if m is not None:
                return m
        return mk("gate", d)
    if d is TRUE or d is FALSE:
        return boolval(d)
    return d


def extremum(name, a, b):
    """min/max of two linear values, with their common part factored out"""
    ca, da = to_lin(a)
    cb, db = to_lin(b)
    com = {t: k for t, k in da.items() if db.get(t) == k}
    cc = ca if ca == cb else 0
    if com or cc:
        a = from_lin(ca - cc, {t: k for t, k in da.items() if t not in com})
        b = from_lin(cb - cc, {t: k for t, k in db.items() if t not in com})
        return lin_add(app(name, *sorted((a, b), key=lambda t: t.id)), from_lin(cc, com))
    return app(name, *sorted((a, b), key=lambda t: t.id))


def _minmax(d):
    a = ATOMS[d.var]
    if a[0] != "gt0":
        return None
    # gt0(L + c): hi if L + c > 0
    diff = lin_sub(d.hi, d.lo)
    if diff.op != "lin":
        return None
    c, ts = diff.args
    # L == hi - lo (c in {0,1} strict or not) -> max ; L == lo - hi -> min
    if c != 0:
        return None
    if ts == a[1] and a[2] in (0, 1):
        return extremum("max", d.hi, d.lo)
    neg = tuple((t, -k) for t, k in ts)
    if neg == a[1] and a[2] in (0, 1):
        return extremum("min", d.hi, d.lo)
    return None


def ungate(t):
    """value term -> diagram"""
    if t.op == "gate":
        return t.args[0]
    if t.op == "bool":
        return t.args[0]
    return t


def gmap(t, fn):
    """apply fn to each leaf value of a (possibly gated) term"""
    if t.op == "gate":
        return gate(map_leaves(t.args[0], lambda l: ungate(fn(l))))
    if t.op == "bool" and isinstance(t.args[0], Node):
        return gate(map_leaves(t.args[0], lambda l: ungate(fn(boolval(l)))))
    return fn(t)


def select(c, a, b):
    """value: a if c else b.  Structs merge field-wise."""
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a is UNINIT:
        return b
    if b is UNINIT:
        return a
    if a.op == "struct" and b.op == "struct" and a.args[:3] == b.args[:3]:
        return mk("struct", a.args[0], a.args[1], a.args[2],
                  *[select(c, x, y) for x, y in zip(a.args[3:], b.args[3:])])
    if a.op == "struct" and b.op != "gate" and b.op != "struct" and a.args[1] is None and \
            b.op not in ("ref",) and a.args[0] not in ("()", "iter", "Tx", "mapper"):
        b2 = expand(b, a.args[0], a.args[2])
        return select(c, a, b2)
    if b.op == "struct" and a.op != "gate" and a.op != "struct" and b.args[1] is None and \
            a.op not in ("ref",) and b.args[0] not in ("()", "iter", "Tx", "mapper"):
        return select(c, expand(a, b.args[0], b.args[2]), b)
    return gate(ite(c, ungate(a), ungate(b)))


def expand(t, adt, fields):
    return mk("struct", adt, None, fields, *[proj(t, f) for f in fields])


def struct(adt, variant, fields, vals):
    if variant is None and fields and adt != "()":
        v0 = vals[0]
        if v0.op == "proj" and v0.args[1] == fields[0]:
            base = v0.args[0]
            if len(fields) > 1 and all(v.op == "proj" and v.args[0] is base and v.args[1] == f for v, f in zip(vals, fields)):
                return base
    return mk("struct", adt, variant, tuple(fields), *vals)


def tup(*vals):
    return mk("struct", "()", None, tuple(str(i) for i in range(len(vals))), *vals)


PROJ_HOOKS = []
WIDE = 160


def proj(t, f):
    """field f of a (non-enum or already downcast) value"""
    for h in PROJ_HOOKS:
        r = h(t, f)
        if r is not None:
            return r
    if t.op == "struct":
        fs = t.args[2]
        if f in fs:
            return t.args[3 + fs.index(f)]
        if f == "wrapped_tx" and t.args[0] == "Tx":
            return t
        return mk("proj", t, f)
    if t.op == "gate" and len(leaves(t.args[0])) <= WIDE:
        return gmap(t, lambda x: proj(x, f))
    if t.op == "app" and t.args[0] == "upd" and "." not in f:
        return t.args[3] if t.args[2] == f else proj(t.args[1], f)
    return mk("proj", t, f)


def vproj(t, variant, f):
    """field f of t downcast to variant"""
    if t.op == "struct":
        if t.args[1] == variant:
            return proj(t, f)
        return UNINIT
    if t.op == "gate":
        ls = [x for x in leaves(t.args[0])]
        good = [x for x in ls if not (x.op == "struct" and x.args[1] != variant)]
        if len(good) == 1:
            return vproj(good[0], variant, f)
        d = map_leaves(t.args[0], lambda x: ungate(vproj(x, variant, f)))
        # leaves that cannot be this variant are unreachable: drop them
        d = drop_leaf(d, UNINIT)
        return gate(d)
    return mk("proj", t, variant + "." + f)


def drop_leaf(d, dead):
    memo = {}

    def go(n):
        if not isinstance(n, Node):
            return n
        r = memo.get(n.id)
        if r is None:
            h, l = go(n.hi), go(n.lo)
            r = l if h is dead else h if l is dead else ite(node(n.var, TRUE, FALSE), h, l)
            memo[n.id] = r
        return r
    return go(d)


def with_field(t, f, v, fields=None, adt=None):
    if t.op == "struct":
        fs = t.args[2]
        if f in fs:
            vals = list(t.args[3:])
            vals[fs.index(f)] = v
            return struct(t.args[0], t.args[1], fs, vals)
    if t.op == "gate":
        return gmap(t, lambda x: with_field(x, f, v, fields, adt))
    if fields:
        return with_field(expand(t, adt, tuple(fields)), f, v)
    if t.op == "app" and t.args[0] == "upd":
        if t.args[2] == f:
            return with_field(t.args[1], f, v)
        if t.args[2] > f:
            return app("upd", with_field(t.args[1], f, v), t.args[2], t.args[3])
    if t is UNINIT:
        return mk("struct", adt or "?", None, (f,), v)
    return app("upd", t, f, v)


# ------------------------------------------------------------------ linear arithmetic
def to_lin(t):
    if t.op == "int":
        return t.args[0], {}
    if t.op == "lin":
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}


def from_lin(c, d):
    d = {t: k for t, k in d.items() if k}
    if not d:
        return INT(c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return mk("lin", c, tuple(sorted(d.items(), key=lambda x: x[0].id)))


def lin_add(a, b, kb=1):
    ca, da = to_lin(a)
    cb, db = to_lin(b)
    r = dict(da)
    for t, k in db.items():
        r[t] = r.get(t, 0) + kb * k
    return from_lin(ca + kb * cb, r)


def lin_sub(a, b):
    return lin_add(a, b, -1)


def scale(a, n):
    c, d = to_lin(a)
    return from_lin(c * n, {t: k * n for t, k in d.items()})


def mul(a, b):
    if a.op == "int":
        return scale(b, a.args[0])
    if b.op == "int":
        return scale(a, b.args[0])
    k = 1
    a, ka = content(a)
    b, kb = content(b)
    k = ka * kb
    r = app("mul", *sorted((a, b), key=lambda t: t.id))
    return r if k == 1 else scale(r, k)


def content(t):
    """t = k * t' with k the positive gcd of its coefficients"""
    c, d = to_lin(t)
    if not d:
        return t, 1
    g = abs(c)
    for k in d.values():
        g = math.gcd(g, abs(k))
    if g <= 1:
        return t, 1
    return from_lin(c // g, {x: k // g for x, k in d.items()}), g


SIGNED = set()      # term ids known to be signed quantities


def is_clock(t):
    """the block's time, or a cache's own note of it"""
    return t.op == "env" and t.args[0] == "now_ms" or t.op == "proj" and t.args[1] == "current_timestamp" and t.args[0].op == "param"


def clocked(ts):
    """the block's time and the time a pool noted last: the chain's clock does not go back (P13: nothing else is noted)"""
    a, b = (ts[0][0], ts[1][0]) if is_clock(ts[0][0]) else (ts[1][0], ts[0][0])
    return is_clock(a) and b.op == "sload" and b.args[0].op == "skey" and len(b.args[0].args) == 1 and b.args[0].args[0].args in (("last_timestamp",), (b"last_timestamp",))


def gt0(t, signed=False):
    """bool: t > 0 (integers / raw units of one scale)"""
    if t.op == "int":
        return TRUE if t.args[0] > 0 else FALSE
    c, d = to_lin(t)
    g = 0
    for k in d.values():
        g = math.gcd(g, abs(k))
    if g > 1:
        c, d = -((-c) // g), {x: k // g for x, k in d.items()}
    ts = tuple(sorted(d.items(), key=lambda x: x[0].id))
    if len(ts) == 1 and abs(ts[0][1]) == 1 and ts[0][0].op == "app" and ts[0][0].args[0] == "rem" and ts[0][0].args[2].op == "int":
        n = ts[0][0].args[2].args[0]        # 0 <= rem(x, n) < n
        if ts[0][1] == 1 and c + n - 1 <= 0:
            return FALSE
        if ts[0][1] == -1 and c > n - 1:
            return TRUE
    if len(ts) == 2 and {ts[0][1], ts[1][1]} == {1, -1} and clocked(ts):
        up, late = ts if is_clock(ts[0][0]) else ts[::-1]
        if up[1] == 1 and c >= 1:
            return TRUE
        if up[1] == -1 and c <= 0:
            return FALSE
    if not signed:
        ks = [k for _, k in ts]
        if all(k > 0 for k in ks) and c >= 1:
            return TRUE
        if all(k < 0 for k in ks) and c <= 0:
            return FALSE
    if ts[0][1] < 0:
        # c - X > 0  <=>  not (X - c + 1 > 0)
        return bnot(gt0(from_lin(1 - c, {t: -k for t, k in d.items()}), signed))
    if len(ts) == 1:
        tt = ts[0][0]
        k = ts[0][1]
        if k == 1 and tt.op == "app" and tt.args[0] == "max" and any(z is INT(0) for z in tt.args[1:]):
            # max(0, y) > n  <=>  y > n  (n >= 0)
            y = next((z for z in tt.args[1:] if z is not INT(0)), INT(0))
            return gt0(lin_add(y, INT(c)), signed)
        if k == 1 and tt.op == "idx":
            pass
        if k == 1 and tt.op == "app" and tt.args[0] == "hasnext_len":
            pass
    for hook in GT0_HOOKS:
        r = hook(c, d)
        if r is not None:
            return r
    return atom("gt0", ts, c)


GT0_HOOKS = []


def lt(a, b, signed=False):
    return cmp2(a, b, lambda x, y: gt0(lin_sub(y, x), signed))


def le(a, b, signed=False):
    return bnot(lt(b, a, signed))


def cmp2(a, b, fn, budget=64):
    """comparison distributes over gates when small"""
    if a.op == "gate" and len(leaves(a.args[0])) <= budget:
        return _flat(map_leaves(a.args[0], lambda x: cmp2(x, b, fn)))
    if b.op == "gate" and len(leaves(b.args[0])) <= budget:
        return _flat(map_leaves(b.args[0], lambda x: cmp2(a, x, fn)))
    return fn(a, b)


def _flat(d):
    return d


def eqnum(a, b, signed=False):
    return cmp2(a, b, lambda x, y: band(bnot(lt(x, y, signed)), bnot(lt(y, x, signed))))


def eqv(a, b):
    """equality of opaque (non numeric) values"""
    def f(x, y):
        if x is y:
            return TRUE
        if is_const(x) and is_const(y):
            return FALSE
        if x.op == "bool" and y.op == "bool":
            return biff(x.args[0], y.args[0])
        if x.op == "bool":
            return x.args[0] if y is boolval(TRUE) else atom("eq", *sorted((x, y), key=lambda t: t.id))
        if x.op == "struct" and y.op != "struct" and x.args[1] is not None and len(x.args) == 3:
            return is_variant(y, x.args[0], x.args[1])
        if y.op == "struct" and x.op != "struct" and y.args[1] is not None and len(y.args) == 3:
            return is_variant(x, y.args[0], y.args[1])
        if x.op == "struct" and y.op == "struct":
            if x.args[1] != y.args[1]:
                return FALSE
            if x.args[2] == y.args[2]:
                return band(*[eqv(p, q) for p, q in zip(x.args[3:], y.args[3:])])
        x, y = sorted((x, y), key=lambda t: t.id)
        return atom("eq", x, y)
    return cmp2(a, b, f)


VARIANTS = {}       # adt -> [names]


def is_variant(t, adt, name):
    names = VARIANTS.get(adt)
    if names is None or name not in names:
        return map_leaves(ungate(t), lambda x: (TRUE if x.args[1] == name else FALSE) if isinstance(x, Term) and x.op == "struct"
                          else atom("is", x, name))
    if set(names) == {"None", "Some"}:
        names = ["None", "Some"]     # Option and OptionalValue are one type here
    k = names.index(name)

    def f(x):
        if x.op == "struct" and x.args[1] is not None:
            return TRUE if x.args[1] == name else FALSE
        if x is UNINIT:
            return FALSE
        r = TRUE
        for i in range(k):
            r = band(r, bnot(atom("is", x, names[i])))
        if k < len(names) - 1:
            r = band(r, atom("is", x, name))
        return r
    if t.op == "gate":
        return map_leaves(t.args[0], f)
    return f(t)


def truth(t):
    """bool diagram of a boolean value term"""
    if t.op == "bool":
        return t.args[0]
    if t.op == "int":
        return TRUE if t.args[0] else FALSE
    if t.op == "gate":
        return map_leaves(t.args[0], truth)
    if t is TRUE or t is FALSE:
        return t
    return atom("b", t)


# ------------------------------------------------------------------ substitution / traversal
def rebuild(t, f):
    """rebuild a term bottom up: f(term)->term or None for each sub-term (pre-order cut)"""
    memo = {}
    nmemo = {}

    def go(x):
        if x.id in memo:
            return memo[x.id]
        r = f(x)
        if r is None:
            r = step(x)
        memo[x.id] = r
        return r

    def gon(n):
        if n.id in nmemo:
            return nmemo[n.id]
        if isinstance(n, Node):
            r = ite(goatom(n.var), gon(n.hi), gon(n.lo))
        elif n is TRUE or n is FALSE:
            r = n
        else:
            r = ungate(go(n))
        nmemo[n.id] = r
        return r

    def goatom(v):
        a = ATOMS[v]
        k = a[0]
        if k == "gt0":
            lin = from_lin(a[2], {})
            for tt, c in a[1]:
                lin = add(lin, scale_g(go(tt), c))
            return cmp2(lin, INT(0), lambda x, y: gt0(x, True) if x.op == "int" or x is not mk("lin", a[2], a[1]) else node(v, TRUE, FALSE))
        if k == "eq":
            return eqv(go(a[1]), go(a[2]))
        if k == "is":
            x = go(a[1])
            if x is a[1]:
                return node(v, TRUE, FALSE)
            adt = next(ad for ad, ns in VARIANTS.items() if a[2] in ns and (len(a) < 4 or ad == a[3]))
            return isv_raw(x, a[2])
        if k == "b":
            return truth(go(a[1]))
        na = [go(y) if isinstance(y, Term) else gon(y) if isinstance(y, Node) else y for y in a[1:]]
        if all(p is q for p, q in zip(na, a[1:])):
            return node(v, TRUE, FALSE)
        if k in ("forall", "exists") and len(na) == 2 and isinstance(na[1], Term) and na[1].op == "bool":
            if na[1].args[0] is TRUE and k == "forall":
                return TRUE
            if na[1].args[0] is FALSE and k == "exists":
                return FALSE
        return atom(k, *na)

    def step(x):
        op, a = x.op, x.args
        if op == "app":
            na = [go(y) if isinstance(y, Term) else y for y in a[1:]]
            if all(p is q for p, q in zip(na, a[1:])):
                return x
            return reapp(a[0], na)
        if op == "lin":
            r = INT(a[0])
            for tt, c in a[1]:
                r = add(r, scale_g(go(tt), c))
            return r
        if op == "proj":
            b = go(a[0])
            if b is a[0]:
                return x
            if "." in a[1]:
                v, fl = a[1].split(".", 1)
                return vproj(b, v, fl)
            return proj(b, a[1])
        if op == "struct":
            return struct(a[0], a[1], a[2], [go(y) for y in a[3:]])
        if op in ("gate", "bool"):
            return gate(gon(a[0]))
        if op in ("elem", "idx", "ind", "sum", "mapvec", "fold", "closure", "sload", "skey", "callret"):
            na = [go(y) if isinstance(y, Term) else y for y in a]
            if all(p is q for p, q in zip(na, a)):
                return x
            return mk(op, *na)
        return x
    return go(t), gon


def isv_raw(x, name):
    """the atom is(x,name) alone (not the ordered encoding)"""
    def f(y):
        if y.op == "struct" and y.args[1] is not None:
            return TRUE if y.args[1] == name else FALSE
        return atom("is", y, name)
    if x.op == "gate":
        return map_leaves(x.args[0], f)
    return f(x)


def reapp(f, args):
    if f == "mul":
        return mul_g(*args)
    if f in ("min", "max"):
        return minmax(f, *args)
    if f in ("mul_half_up", "mul_half_up_signed") and len(args) == 5 and all(isinstance(a, Term) for a in args):
        x, sx, y, sy, p = args
        (x, sx), (y, sy) = fewer(x, sx), fewer(y, sy)
        return lift2(x, y, lambda a, b: INT(0) if a is INT(0) or b is INT(0) else app(
            f, *([a, sx, b, sy] if (a.id, sx.id) <= (b.id, sy.id) else [b, sy, a, sx]), p))
    if f in ("div_half_up", "div_half_up_signed") and len(args) == 5 and all(isinstance(a, Term) for a in args):
        x, sx, y, sy, p = args
        (x, sx), (y, sy) = fewer(x, sx), fewer(y, sy)
        return lift2(x, y, lambda a, b: INT(0) if a is INT(0) else app(f, a, sx, b, sy, p))
    if f in ("rescale", "rescale_half_up") and len(args) == 3 and all(isinstance(a, Term) for a in args):
        x, so, s = args
        return x if so is s else gmap(x, lambda a: INT(0) if a is INT(0) else app(f, a, so, s))
    return app(f, *args)


def fewer(x, s):
    """the same decimal without common zeros at its end"""
    while x.op == "lin" and s.op == "int" and s.args[0] > 0 and x.args[0] % 10 == 0 and all(k % 10 == 0 for _, k in x.args[1]):
        x, s = from_lin(x.args[0] // 10, {t: k // 10 for t, k in x.args[1]}), INT(s.args[0] - 1)
    return x, s


def minmax(f, a, b):
    c = lt(a, b) if f == "min" else lt(b, a)
    return select(c, a, b)


DIST = 24


def lift2(a, b, fn):
    """binary op, distributing over gates while small"""
    na = len(leaves(a.args[0])) if a.op == "gate" else 1
    nb = len(leaves(b.args[0])) if b.op == "gate" else 1
    if na * nb > DIST:
        return fn(a, b)
    if na > 1:
        return gmap(a, lambda x: lift2(x, b, fn))
    if nb > 1:
        return gmap(b, lambda y: lift2(a, y, fn))
    return fn(a, b)


def add(a, b):
    return lift2(a, b, lin_add)


def sub(a, b):
    return lift2(a, b, lin_sub)


def mul_g(a, b):
    return lift2(a, b, mul)


def scale_g(a, n):
    return gmap(a, lambda x: scale(x, n))


def subterms(t, seen=None):
    """all sub-terms, including those inside gate conditions"""
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if isinstance(x, Node):
            st += [x.hi, x.lo]
            st += [y for y in ATOMS[x.var][1:] if isinstance(y, (Term, Node))]
            if ATOMS[x.var][0] == "gt0":
                st += [y for y, _ in ATOMS[x.var][1]]
            continue
        yield x
        for y in x.args:
            if isinstance(y, (Term, Node)):
                st.append(y)
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, tuple) and z and isinstance(z[0], Term):
                        st.append(z[0])
                    elif isinstance(z, Term):
                        st.append(z)


_free = {}


def free(t):
    """heights of the bound variables of t whose binder is outside t (float("inf"): some accumulator of an outer binder)"""
    hit = _free.get(t.id)
    if hit is not None:
        return hit
    out = set()
    bind = None
    if isinstance(t, Node):
        for v in support(t):
            a = ATOMS[v]
            if a[0] in ("forall", "exists"):
                out |= free(a[1]) | _closed(a[2])
            else:
                for y in a[1:]:
                    if isinstance(y, (Term, Node)):
                        out |= free(y)
                    elif isinstance(y, tuple):
                        for q in y:
                            for z in (q if isinstance(q, tuple) else (q,)):
                                if isinstance(z, (Term, Node)):
                                    out |= free(z)
        for l in leaves(t):
            if isinstance(l, Term):
                out |= free(l)
    elif t.op == "bnd":
        out.add(t.args[0])
    elif t.op == "lvb":
        out.add(float("inf"))
    else:
        if t.op == "sum":
            bind = t.args[1]
        elif t.op == "fold":
            bind = t.args[2]
        elif t.op == "app" and t.args[0] in ("mapped", "filtered") and len(t.args) > 2:
            bind = t.args[2]
        elif t.op in ("gate", "bool"):
            out |= free(t.args[0])
        for y in t.args:
            if bind is not None and y is bind:
                out |= _closed(y)
            elif isinstance(y, Term):
                out |= free(y)
            elif isinstance(y, tuple):
                for q in y:
                    for z in (q if isinstance(q, tuple) else (q,)):
                        if isinstance(z, (Term, Node)):
                            out |= free(z)
    _free[t.id] = out
    return out


def _closed(y):
    f = free(y) - {float("inf")}
    return f - {min(f)} if f else f      # inner binders have smaller heights


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


# ------------------------------------------------------------------ printing
def show(t, depth=7):
    if isinstance(t, Node):
        return showb(t, depth)
    op, a = t.op, t.args
    if depth <= 0:
        return "…"
    if op == "int":
        return str(a[0])
    if op in ("bytes", "const"):
        return repr(a[0]) if op == "bytes" else a[0].split("::")[-1]
    if op == "arg":
        return "$" + str(a[0])
    if op == "app":
        return f"{a[0]}({', '.join(show(x, depth - 1) if isinstance(x, Term) else str(x) for x in a[1:])})"
    if op == "proj":
        return f"{show(a[0], depth)}.{a[1]}"
    if op == "lin":
        s = []
        for tt, k in a[1]:
            s.append(("+" if k > 0 else "-") + ("" if abs(k) == 1 else str(abs(k)) + "*") + show(tt, depth - 1))
        if a[0]:
            s.append(("+" if a[0] > 0 else "-") + str(abs(a[0])))
        return "(" + "".join(s).lstrip("+") + ")"
    if op == "struct":
        nm = a[0].split("::")[-1] + ("::" + a[1] if a[1] else "")
        return nm + "{" + ", ".join(f"{f}:{show(v, depth - 1)}" for f, v in zip(a[2], a[3:])) + "}"
    if op == "gate":
        return "[" + shown(a[0], depth - 1) + "]"
    if op == "bool":
        return "bool[" + showb(a[0], depth - 1) + "]"
    if op == "ref":
        return f"&{a[0]}{a[1]}"
    return f"{op}({', '.join(show(x, depth - 1) if isinstance(x, (Term, Node)) else str(x) for x in a)})"


def shown(n, depth):
    if not isinstance(n, Node):
        return show(n, depth)
    if depth <= 0:
        return "…"
    return f"if {show_atom(n.var, depth - 1)} then {shown(n.hi, depth - 1)} else {shown(n.lo, depth - 1)}"


def show_atom(v, depth=5):
    a = ATOMS[v]
    if a[0] == "gt0":
        return show(mk("lin", a[2], a[1]), depth) + ">0"
    if a[0] == "eq":
        return f"{show(a[1], depth)}=={show(a[2], depth)}"
    if a[0] == "is":
        return f"{show(a[1], depth)} is {a[2]}"
    if a[0] == "b":
        return show(a[1], depth)
    return str(a)


def showb(n, depth=6):
    """conjunction-style printing of a condition"""
    if n is TRUE:
        return "true"
    if n is FALSE:
        return "false"
    if isinstance(n, Term):
        return show(n, depth)
    parts = []
    while isinstance(n, Node):
        if n.lo is FALSE:
            parts.append(show_atom(n.var, depth - 1))
            n = n.hi
        elif n.hi is FALSE:
            parts.append("!" + show_atom(n.var, depth - 1))
            n = n.lo
        else:
            parts.append(shown(n, depth - 1))
            n = TRUE
    if n is FALSE:
        parts.append("false")
    return " & ".join(parts) if parts else "true"
