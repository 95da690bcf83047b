"""Gated-value dataflow over MIR.

Every entry point is analysed once, with all workspace callees expanded at their call sites.
The result of an analysis is a list of *effects* (storage reads and writes, cross-contract calls,
transfers, event logs, aborts), each carrying the condition under which it happens and, for every
value, the gated expression that defines it.  Joins merge; no path is enumerated; loops are
solved to a fixpoint over the locations they carry and then summarised."""
import math
import terms as T
from terms import (mk, INT, BYTES, app, boolval, gate, ungate, gmap, select, tup, proj, vproj, TRUE, FALSE,
                   UNIT, UNINIT, band, bor, bnot, ite, restrict, truth, Node, Term)
from program import norm


class Event:
    __slots__ = ("kind", "d", "pc", "seq", "loops", "stack", "fn", "file", "line", "owner")

    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(k)

    def at(self):
        return f"{self.file}:{self.line} in {self.fn}"

    def chain(self):
        return " > ".join(f"{p.split('::')[-1]}:{l}" for p, _, l in self.stack)

    def __repr__(self):
        return f"<{self.kind} {self.d} @{self.line}>"


class Frame:
    __slots__ = ("id", "fn", "stack", "loops", "depth")

    def __init__(self, id_, fn, stack, loops, depth):
        self.id, self.fn, self.stack, self.loops, self.depth = id_, fn, stack, loops, depth


def bnd(h):
    return mk("bnd", h)


_bh = {}


def bheight(t):
    """largest bound-variable height inside t"""
    m = 0
    for x in T.subterms(t):
        if x.op == "bnd":
            m = max(m, x.args[0])
    return m



def summed(coll, g, lid, G):
    """sum of g(element) over a list; a list known item by item is summed item by item"""
    out = INT(0)
    while coll.op == "app" and coll.args[0] == "push":
        x = coll.args[2]
        out = T.add(T.rebuild(g, lambda t: x if t.op == "elem" and t.args[1] is lid else None)[0], out)
        coll = coll.args[1]
    if coll.op == "app" and coll.args[0] == "vnew":
        return out
    return T.add(mk("sum", coll, G), out)


class Interp:
    def __init__(self, prog, crate, cuts=None, models=None, ext_loops=True):
        import models as M
        self.P = prog
        self.crate = crate
        self.cuts = cuts if cuts is not None else {}
        self.models = models or M.MODELS
        self.events = []
        self.loopinfo = {}
        self.loops = {}        # loop -> (list walked, condition to reach it, to break out, to end, to go round)
        self.seq = 0
        self.skips = []
        self.unknown = {}
        self.visited = set()
        self.prom = {}
        self.nsteps = 0
        self.assumptions = set()

    # -------------------------------------------------------------- running
    def run(self, fn, args=None, pc=TRUE, mem=None):
        """analyse fn from its start; returns (value, pc, mem) or None"""
        fr = Frame(mk("frame", fn.path, 0), fn, (), (), 0)
        if args is None:
            args = [self.param(fn, i) for i in range(fn.argc)]
        self.root = fn.path
        self.root_args = args
        return self.exec_fn(fn, args, fr, pc, dict(mem or {}))

    def param(self, fn, i):
        ty = fn.d["locals"][i + 1] if i + 1 < len(fn.d["locals"]) else ""
        if isinstance(ty, str) and ty.startswith("&mut"):
            loc = ("P", fn.path, i)
            return mk("ref", loc, ())
        return mk("param", i)

    def exec_fn(self, fn, args, fr, pc, mem):
        fn.cfg()
        self.visited.add(fn.path)
        f = fr.id
        for i, a in enumerate(args):
            mem[("L", f, i + 1)] = a
        rets, exits = self.region(fn, fr, None, 0, pc, mem)
        if not rets:
            return None
        pc, mem = self.merge(rets)
        val = mem.get(("L", f, 0), UNIT)
        for k in [k for k in mem if k[0] == "L" and k[1] is f]:
            del mem[k]
        return val, pc, mem

    def merge(self, lst):
        if len(lst) == 1:
            return lst[0]
        pc, mem = lst[0]
        mem = dict(mem)
        for pc2, m2 in lst[1:]:
            pc, mem = self.merge2(pc, mem, pc2, m2)
        return pc, mem

    def merge2(self, pc1, m1, pc2, m2):
        pc = bor(pc1, pc2)
        c = None
        out = {}
        for k, v in m2.items():
            if k not in m1:
                if k[0] == "L":
                    out[k] = v
                else:
                    if c is None:
                        c = self.simp(pc1, pc2, pc)
                    out[k] = select(c, self.base_of(k), v)
        for k, v in m1.items():
            w = m2.get(k)
            if w is v:
                out[k] = v
            elif w is None:
                if k[0] == "L":
                    out[k] = v
                else:
                    if c is None:
                        c = self.simp(pc1, pc2, pc)
                    out[k] = select(c, v, self.base_of(k))
            else:
                if c is None:
                    c = self.simp(pc1, pc2, pc)
                out[k] = select(c, v, w)
        return pc, out

    def simp(self, pc1, pc2, pc):
        a = restrict(pc1, pc)
        b = restrict(bnot(pc2), pc)
        if band(pc1, pc2) is FALSE and len(T.support(b)) < len(T.support(a)):
            return b
        return a

    def base_of(self, k):
        if k[0] == "S":
            return mk("sload", *k[1:])
        if k[0] == "E":
            return INT(0)
        if k[0] == "P":
            return mk("param", k[2])
        return UNINIT

    # -------------------------------------------------------------- regions
    def region(self, fn, fr, blocks, entry, pc, mem):
        """run the blocks of a region once; returns (returns, exits{bb:[(pc,mem)]})"""
        rpo = fn.rpo
        pend = {entry: [(pc, mem)]}
        rets, exits = [], {}
        header = entry if blocks is not None else None
        first = True

        def out(bb, p, m):
            if p is FALSE:
                return
            if blocks is not None and (bb not in blocks or bb == header):
                exits.setdefault(bb, []).append((p, m))
            else:
                pend.setdefault(bb, []).append((p, m))

        while pend:
            bb = min(pend, key=lambda b: rpo[b])
            p, m = self.merge(pend.pop(bb))
            if p is FALSE:
                continue
            if bb in fn.loops and not (first and bb == header):
                lr, le = self.loop(fn, fr, bb, p, m)
                rets += lr
                for t, lst in le.items():
                    for q, mm in lst:
                        out(t, q, mm)
            else:
                first = False
                self.block(fn, fr, bb, p, dict(m), out, rets)
        return rets, exits

    def loop(self, fn, fr, h, pc, mem):
        body = fn.loops[h]
        lid = mk("lid", fr.id, h, *fr.loops)
        mark, seq0 = len(self.events), self.seq
        try:
            return self.iterate(fn, fr, lid, h, pc, dict(mem), lambda fr2, p, m: self.region(fn, fr2, body, h, p, m))
        except Unroll as u:
            if u.lid is not lid:
                raise
        # a walk over a list written out in the source: round after round
        del self.events[mark:]
        self.seq = seq0
        self.skips = []
        rets, exits = [], {}
        for i in range(32):
            fr2 = Frame(fr.id, fr.fn, fr.stack, fr.loops + (mk("unroll", fr.id, h, i),), fr.depth)
            r, e = self.region(fn, fr2, body, h, pc, dict(mem))
            rets += r
            back = [b for b in e.pop(h, []) if b[0] is not FALSE]
            for t, l in e.items():
                exits.setdefault(t, []).extend(l)
            if not back:
                return rets, exits
            pc, mem = self.merge(back)
        raise RuntimeError(f"list in {fn.path} too long")

    def iterate(self, fn, fr, lid, h, pc, mem, region):
        fr2 = Frame(fr.id, fr.fn, fr.stack, fr.loops + (lid,), fr.depth)
        havoc = {}          # (key, path) -> None | 'ind'
        mark, seq0 = len(self.events), self.seq
        ind_tried = set()
        for it in range(24):
            del self.events[mark:]
            self.seq = seq0
            head = dict(mem)
            for (k, path), how in havoc.items():
                base = head.get(k)
                if base is None:
                    base = self.base_of(k)
                head[k] = put_path(base, path, mk("ind", lid) if how == "ind" else mk("lv", lid, keyname(k), path))
            rets, exits = region(fr2, pc, dict(head))
            back = exits.pop(h, [])
            if not back:
                break
            bpc, bmem = self.merge(back)
            new = {}
            for k, v in bmem.items():
                hv = head.get(k)
                if hv is None:
                    if k[0] == "L" or k[0] == "P":
                        continue
                    hv = self.base_of(k)
                for path in diff(hv, v):
                    if (k, path) in havoc:
                        continue
                    new[(k, path)] = None
            # a havocked parent subsumes children
            grew = False
            for kp in new:
                if not any(kp[0] == k2 and kp[1][:len(p2)] == p2 for k2, p2 in havoc):
                    havoc = {x: y for x, y in havoc.items() if not (x[0] == kp[0] and x[1][:len(kp[1])] == kp[1])}
                    havoc[kp] = None
                    grew = True
            if grew:
                continue
            # induction variables: start 0, step 1
            again = False
            for (k, path), how in list(havoc.items()):
                if how is None and (k, path) not in ind_tried:
                    ind_tried.add((k, path))
                    init = get_path(mem.get(k, UNINIT), path)
                    lv = mk("lv", lid, keyname(k), path)
                    if init.op == "int" and init.args[0] == 0 and get_path(bmem[k], path) is T.lin_add(lv, INT(1)):
                        havoc[(k, path)] = "ind"
                        again = True
            if not again:
                break
        else:
            raise RuntimeError(f"loop in {fn.path} did not converge")
        if not back:
            return rets, exits
        return self.summarise(fn, fr2, lid, pc, mem, havoc, bpc, bmem, rets, exits)

    def summarise(self, fn, fr, lid, pc, mem, havoc, bpc, bmem, rets, exits):
        # the collection the loop walks
        coll = None
        hv = None
        for v in sorted(T.support(bpc) | {x for l in exits.values() for p, _ in l for x in T.support(p)}):
            a = T.ATOMS[v]
            if a[0] == "hasnext" and a[2] is lid:
                coll, hv = a[1], v
                break
        has = T.node(hv, TRUE, FALSE) if hv is not None else TRUE
        if coll is None:
            coll = mk("app", "loop", lid)
        import models as M
        if coll.op == "app" and coll.args[:2] == ("range", INT(0)):    # a collection walked by position
            for k, path in havoc:
                for x in T.subterms(get_path(bmem[k], path)):
                    if x.op == "elem" and x.args[1] is lid and x.args[0] is not coll and M.vlen(x.args[0]) is coll.args[2]:
                        coll = M.base_coll(x.args[0])
                        break
        lvars = {v for v in range(len(T.ATOMS)) if False}

        def mentions(x):
            return T.contains(x, lambda y: y is lid or (y.op in ("lv", "ind") and y.args[0] is lid))

        def lid_atoms(f):
            r = set()
            for v in T.support(f):
                a = T.ATOMS[v]
                ok = False
                for y in a[1:]:
                    if isinstance(y, (Term, Node)) and mentions(y):
                        ok = True
                    elif isinstance(y, tuple):
                        ok = ok or any(isinstance(z, tuple) and isinstance(z[0], Term) and mentions(z[0]) for z in y)
                if ok:
                    r.add(v)
            return r

        brk_pcs, norm_pcs, early = [], [], []
        for t, lst in exits.items():
            for p, m in lst:
                n_, b_ = band(p, bnot(has)), band(p, has)
                if hv is not None and b_ is not FALSE and t is not None and fn.returns(t):
                    early.append(b_)
                if hv is None:
                    norm_pcs.append(p)
                else:
                    if n_ is not FALSE:
                        norm_pcs.append(n_)
                    if b_ is not FALSE:
                        brk_pcs.append(b_)
        for p, m in rets:
            brk_pcs.append(p)
        care = band(pc, has)
        B = bor(*brk_pcs) if brk_pcs else FALSE
        if B is not FALSE:
            B = restrict(B, care)
            existsB = self.quant("exists", coll, B, lid)
        else:
            existsB = FALSE
        C = restrict(bpc, band(care, bnot(B)) if B is not FALSE else care)
        fall = self.quant("forall", coll, C, lid) if C is not TRUE else TRUE

        early += [p for p, m in rets]
        self.loops[lid] = (coll, pc, bor(*early) if early else FALSE, bor(*norm_pcs) if norm_pcs else FALSE, bpc)

        def summ(k, path, how):
            init = get_path(mem.get(k) if k in mem else self.base_of(k), path)
            lv = mk("ind", lid) if how == "ind" else mk("lv", lid, keyname(k), path)
            back = get_path(bmem[k], path)
            # simplify under the care condition of having gone round once
            r = self.fold(init, lv, back, coll, lid)
            return r if r is not None else mk("fold", coll, init, self.generalise(back, lid), keyname(k), path)

        subst = {}
        for (k, path), how in havoc.items():
            self.loopinfo[(lid, keyname(k), path)] = (get_path(mem.get(k) if k in mem else self.base_of(k), path),
                                                      get_path(bmem[k], path), bpc)
            lv = mk("ind", lid) if how == "ind" else mk("lv", lid, keyname(k), path)
            subst[lv] = summ(k, path, how)

        def fix_mem(m, broke):
            out = {}
            for k, v in m.items():
                if not broke or True:
                    v2 = T.rebuild(v, lambda x: subst.get(x))[0] if T.contains(v, lambda y: y in subst) else v
                    if not broke and T.contains(v2, lambda y: y is lid):
                        v2 = self.drop_atoms(v2, lid_atoms)
                    out[k] = v2
            return out

        def fix_pc(p, broke):
            q = T.rebuild(boolval(p), lambda x: subst.get(x))[1](p) if T.contains(boolval(p), lambda y: y in subst) else p
            if broke:
                return band(pc, existsB, T.exists(q, {hv}) if hv is not None else q)
            q = restrict(q, bnot(has)) if hv is not None else q
            q = T.exists(q, lid_atoms(q))
            return band(q, pc, bnot(existsB), fall)

        exits2 = {}
        for t, lst in exits.items():
            for p, m in lst:
                parts = []
                if hv is None:
                    parts.append((p, False))
                else:
                    n_, b_ = band(p, bnot(has)), band(p, has)
                    if n_ is not FALSE:
                        parts.append((n_, False))
                    if b_ is not FALSE:
                        parts.append((b_, True))
                for q, broke in parts:
                    q2 = fix_pc(q, broke)
                    if q2 is not FALSE:
                        mm = {k: self.under(v, q) for k, v in m.items()} if len(parts) > 1 else m
                        exits2.setdefault(t, []).append((q2, fix_mem(mm, broke)))
        rets2 = [(fix_pc(p, True), fix_mem(m, True)) for p, m in rets]
        return [r for r in rets2 if r[0] is not FALSE], exits2

    def under(self, v, c):
        if v.op == "gate":
            return gate(restrict(v.args[0], c))
        if v.op == "struct":
            nv = [self.under(x, c) for x in v.args[3:]]
            if any(a is not b for a, b in zip(nv, v.args[3:])):
                return mk("struct", v.args[0], v.args[1], v.args[2], *nv)
        return v

    def drop_atoms(self, v, lid_atoms):
        return v

    def generalise(self, v, lid, h=None):
        """replace this loop's current element by a bound variable"""
        if h is None:
            h = bheight(v) + 1
        b = bnd(h)
        return T.rebuild(v, lambda x: b if x is lid else (mk("lvb", *x.args[1:]) if x.op == "lv" and x.args[0] is lid else None))[0]

    def quant(self, kind, coll, c, lid):
        g = self.generalise(boolval(c), lid)
        d = ungate(g)
        if d is TRUE and kind == "forall":
            return TRUE
        if d is FALSE and kind == "exists":
            return FALSE
        return T.atom(kind, coll, boolval(d))

    def fold(self, init, lv, back, coll, lid):
        def has_lv(x):
            return T.contains(x, lambda y: y.op == "lv" and y.args[0] is lid)
        if lv.op == "ind":
            return app("len", coll)
        ks = app("keys", coll)
        if T.contains(back, lambda y: y.op == "elem" and y.args[0] is ks and y.args[1] is lid):
            coll = ks       # a map walked through the positions of its keys
        if back.op == "int" and not has_lv(back):
            pass
        # counters and sums
        g = self.numdiff(back, lv)
        if g is not None and not has_lv(g):
            G = self.generalise(g, lid)
            return T.add(init, summed(coll, g, lid, G))
        # appended vectors
        d = ungate(back)
        ls = T.leaves(d)
        if all(l is lv or (l.op == "app" and l.args[0] == "push" and l.args[1] is lv and not has_lv(l.args[2])) for l in ls):
            pushes = [l for l in ls if l is not lv]
            cond = T.map_leaves(d, lambda l: FALSE if l is lv else TRUE)
            if not has_lv(boolval(cond)) and pushes:
                item = gate(T.drop_leaf(T.map_leaves(d, lambda l: UNINIT if l is lv else ungate(l.args[2])), UNINIT))
                both = self.generalise(tup(item, boolval(cond)), lid)
                item, cond = both.args[3], both.args[4]
                same = item.op == "elem" and item.args[0] is coll and item.args[1].op == "bnd"
                v = coll if same and cond is boolval(TRUE) else app("mapped", coll, item) if cond is boolval(TRUE) else app("filtered", coll, item, cond)
                if init.op == "app" and init.args[0] == "vnew":
                    return v
                return app("concat", init, v)
        # flags
        if back.op in ("gate", "bool") or not has_lv(back):
            others = [l for l in ls if l is not lv]
            if len(others) == 1 and not mentions_any(others[0], lid):
                o = others[0]
                if lv in ls or True:
                    cond = T.map_leaves(d, lambda l: FALSE if l is lv else TRUE) if lv in ls else TRUE
                    if not has_lv(boolval(cond)):
                        ex = self.quant("exists", coll, cond, lid) if cond is not TRUE else bnot(self.empty(coll))
                        ov = boolval(o) if o in (TRUE, FALSE) else o
                        return select(ex, ov, init)
        return None

    def empty(self, coll):
        import models as M
        return T.eqnum(M.vlen(coll), INT(0))

    def numdiff(self, back, lv):
        """back - lv when every leaf is numeric and refers to lv linearly"""
        d = ungate(back)
        bad = []

        def f(l):
            if l in (TRUE, FALSE) or l.op in ("struct", "ref", "bytes", "const"):
                bad.append(l)
                return INT(0)
            c, m = T.to_lin(l)
            if m.get(lv) != 1:
                bad.append(l)
                return INT(0)
            return T.lin_sub(l, lv)
        r = T.map_leaves(d, f)
        if bad:
            return None
        return gate(r)

    # -------------------------------------------------------------- blocks
    def block(self, fn, fr, bb, pc, mem, out, rets):
        b = fn.blocks[bb]
        self.nsteps += 1
        for st in b["s"]:
            v = self.rvalue(fn, fr, mem, st[1])
            self.write(fr, mem, st[0], v)
        t = b["t"]
        k = t[0]
        if k == "goto":
            out(t[1], pc, mem)
        elif k == "return":
            rets.append((pc, mem))
        elif k == "switch":
            self.switch(fn, fr, t, pc, mem, out)
        elif k == "drop":
            r = self.drop(fn, fr, bb, t, pc, mem)
            if r:
                out(t[2], r[0], r[1])
        elif k == "call":
            r = self.call(fn, fr, bb, t, pc, mem)
            while self.skips:       # items a filter drops: on to the next round
                out(*self.skips.pop())
            if r is not None and t[4] is not None:
                v, pc, mem = r
                self.write(fr, mem, t[3], v)
                out(t[4], pc, mem)
        elif k == "assert":
            c = truth(self.operand(fn, fr, mem, t[1]))
            out(t[3], band(pc, c if t[2] else bnot(c)), mem)
        elif k in ("unreachable", "resume"):
            pass
        else:
            raise RuntimeError("terminator " + k)

    def switch(self, fn, fr, t, pc, mem, out):
        v = self.operand(fn, fr, mem, t[1])
        rest = pc
        many = len(t[2]) + (t[3] is not None) > 1
        for val, bb in t[2]:
            c = self.switch_cond(v, val, t[4] if len(t) > 4 else "")
            p = band(rest, c)
            rest = band(rest, bnot(c))
            if p is not FALSE:
                out(bb, p, dict(mem) if many else mem)
        if t[3] is not None and rest is not FALSE:
            out(t[3], rest, dict(mem) if many else mem)

    def switch_cond(self, v, val, ty):
        val = int(val)
        if v.op == "discr":
            x, adt, mp = v.args
            for a, name in mp:
                if int(a) == val:
                    return T.is_variant(x, adt, name)
            return FALSE
        if v.op == "gate" and any(l.op == "discr" for l in T.leaves(v.args[0]) if isinstance(l, Term)):
            return T.map_leaves(v.args[0], lambda l: self.switch_cond(l, val, ty))
        if ty == "bool" or v.op == "bool":
            c = truth(v)
            return c if val else bnot(c)
        return T.eqnum(v, INT(val))

    # -------------------------------------------------------------- places
    def locate(self, fr, mem, place):
        """(key, path) of a place, following mutable references"""
        key, path = ("L", fr.id, place[0]), []
        for pr in place[1:]:
            if pr == "*":
                v = get_path(mem.get(key, UNINIT), tuple(path))
                if v.op == "ref":
                    key, path = v.args[0], list(v.args[1])
                elif v.op == "gate" and has_ref(v):
                    path.append("*")
                # otherwise: a shared reference, box or opaque pointer — identity
            elif "f" in pr:
                if path and isinstance(path[-1], tuple) and path[-1][0] == "d":
                    path[-1] = ("v", path[-1][1], str(pr["f"]))
                else:
                    path.append(str(pr["f"]))
            elif "d" in pr:
                path.append(("d", pr["d"]))
            elif "i" in pr:
                path.append(("i", mem.get(("L", fr.id, pr["i"]), UNINIT)))
            elif "ci" in pr:
                path.append(("i", INT(pr["ci"]) if not isinstance(pr["ci"], list) else BYTES(str(pr["ci"]))))
            else:
                path.append(("ss", str(pr)))
        return key, tuple(path)

    def load(self, mem, key, path):
        v = mem.get(key)
        if v is None:
            v = self.base_of(key)
        return get_path(v, path, self, mem)

    def read(self, fr, mem, place):
        if len(place) == 1:
            return mem.get(("L", fr.id, place[0]), UNINIT)
        key, path = self.locate(fr, mem, place)
        return self.load(mem, key, path)

    def write(self, fr, mem, place, v):
        if len(place) == 1:
            mem[("L", fr.id, place[0])] = v
            return
        key, path = self.locate(fr, mem, place)
        self.store(mem, key, path, v, self.place_adts(fr.fn, place))

    def place_adts(self, fn, place):
        """the aggregate type each field step of a place goes through"""
        ty = fn.d["locals"][place[0]]
        out = []
        for pr in place[1:]:
            if pr == "*":
                continue
            if isinstance(pr, dict) and "f" in pr:
                base = base_type(ty)
                d = self.P.adts.get(base)
                if d is None or d.get("enum") or not d["variants"]:
                    out.append(None)
                    ty = ""
                    continue
                fields = d["variants"][0][1]
                out.append((base, tuple(str(f[0]) for f in fields)))
                ty = next((f[1] for f in fields if str(f[0]) == str(pr["f"])), "")
            else:
                out.append(None)
                ty = ""
        return out

    def store(self, mem, key, path, v, adts=()):
        if "*" in path:
            i = path.index("*")
            r = get_path(mem.get(key, UNINIT), path[:i])
            self.store_ref(mem, r, path[i + 1:], v)
            return
        base = mem.get(key)
        if base is None:
            base = self.base_of(key)
        pad = (None,) * (len(path) - len(adts)) + tuple(adts)[-len(path):] if path else ()
        mem[key] = put_path(base, path, v, pad)

    def store_ref(self, mem, r, path, v):
        """store through a (possibly gated) reference"""
        d = ungate(r)
        for l in T.leaves(d):
            if isinstance(l, Term) and l.op == "ref":
                c = T.map_leaves(d, lambda x, l=l: TRUE if x is l else FALSE) if isinstance(d, Node) else TRUE
                old = self.load(mem, l.args[0], l.args[1] + tuple(path))
                self.store(mem, l.args[0], l.args[1] + tuple(path), select(c, v, old))

    # -------------------------------------------------------------- values
    def operand(self, fn, fr, mem, o):
        if "c" in o:
            return self.read(fr, mem, o["c"])
        if "m" in o:
            return self.read(fr, mem, o["m"])
        return self.const(o["k"], fn)

    def const(self, k, fn=None):
        ty = k.get("ty", "")
        if "fn" in k:
            return mk("fnptr", k["fn"] if isinstance(k["fn"], str) else k["fn"]["p"])
        if "closure" in k:
            return mk("struct", "closure:" + k["closure"], None, ())
        if "promoted" in k:
            key = (k.get("const") or k.get("path"), k["promoted"])
            return self.promoted_val(key, fn, k)
        if "int" in k:
            if ty == "bool":
                return boolval(TRUE if k["int"] not in ("0", "false") else FALSE)
            return INT(int(k["int"]))
        if "const" in k:
            c = self.P.consts.get(k["const"])
            if c and "int" in c:
                return self.const(c)
            if c and "refval" in c:
                return self.const(c)
            return mk("const", k["const"])
        if "refval" in k:
            r = k["refval"]
            if "bytes" in r:
                return BYTES(r["bytes"])
            if "static" in r:
                return mk("const", r["static"])
            if "int" in r:
                return INT(int(r["int"]))
            if "ref" in r:
                return self.const({"ty": ty[1:], "refval": r["ref"]}) if isinstance(r["ref"], dict) else mk("const", str(r["ref"]))
        if "tyconst" in k:
            s = k["tyconst"]
            if s.startswith('"'):
                return BYTES(s.strip('"'))
            s2 = s.split("_")[0]
            if s2.lstrip("-").isdigit():
                return INT(int(s2))
            return mk("const", s)
        if "zst" in k:
            return UNIT if ty == "()" else mk("zst", ty)
        if "val" in k:
            return mk("const", str(k["val"]) + ":" + ty)
        return mk("const", "?" + ty)

    def promoted_val(self, key, fn, k):
        path, n = key
        f = None
        if path is None and fn is not None:
            path = fn.path
        if (path, n) in self.prom:
            return self.prom[(path, n)]
        f = self.P.promoted.get((path, n))
        if f is None:
            return mk("const", f"promoted:{path}:{n}")
        saved = self.events, self.seq
        self.events = []
        r = self.exec_fn(f, [], Frame(mk("frame", "promoted", path, n), f, (), (), 0), TRUE, {})
        self.events, self.seq = saved
        v = r[0] if r else UNINIT
        if v.op == "ref":
            v = r[2].get(v.args[0], UNINIT)
        self.prom[(path, n)] = v
        return v

    def rvalue(self, fn, fr, mem, rv):
        k = rv[0]
        if k == "use":
            return self.operand(fn, fr, mem, rv[1])
        if k == "ref":
            if rv[1] == "shared" or rv[1] == "fake":
                v = self.read(fr, mem, rv[2])
                return v
            key, path = self.locate(fr, mem, rv[2])
            if "*" in path:
                return self.load(mem, key, path[:path.index("*")])
            return mk("ref", key, path)
        if k == "discr":
            v = self.read(fr, mem, rv[1])
            v = self.val(mem, v)
            if len(rv) > 3:
                return mk("discr", v, rv[2], tuple((str(a), b) for a, b in rv[3]))
            return app("discriminant", v)
        if k == "adt":
            vals = [self.operand(fn, fr, mem, o) for o in rv[4]]
            if not rv[3] and not vals and rv[2] is None:
                return mk("zst", rv[1])
            return T.struct(rv[1], rv[2], tuple(str(x) for x in rv[3]), vals)
        if k == "tuple":
            if not rv[1]:
                return UNIT
            return tup(*[self.operand(fn, fr, mem, o) for o in rv[1]])
        if k == "array":
            ops = [self.operand(fn, fr, mem, o) for o in rv[1]]
            return mk("struct", "[]", None, tuple(str(i) for i in range(len(ops))), *ops)
        if k == "repeat":
            return app("repeat", self.operand(fn, fr, mem, rv[1]))
        if k == "closure":
            ops = [self.operand(fn, fr, mem, o) for o in rv[2]]
            return mk("struct", "closure:" + rv[1], None, tuple(str(i) for i in range(len(ops))), *ops)
        if k == "cast":
            x = self.operand(fn, fr, mem, rv[2])
            return T.select(truth(x), INT(1), INT(0)) if x.op == "bool" else x
        if k == "bin":
            a, b = self.operand(fn, fr, mem, rv[2]), self.operand(fn, fr, mem, rv[3])
            return self.binop(fn, rv[1], a, b, rv)
        if k == "un":
            a = self.operand(fn, fr, mem, rv[2])
            if rv[1] == "Not":
                return boolval(bnot(truth(a)))
            if rv[1] == "Neg":
                return T.scale_g(a, -1)
            if rv[1] == "PtrMetadata":
                import models
                return models.vlen(a)
            return app("un" + rv[1], a)
        return mk("opaque", "rv:" + str(k), fr.id)

    def binop(self, fn, op, a, b, rv=None):
        if op in ("Add", "AddUnchecked"):
            return T.add(a, b)
        if op in ("Sub", "SubUnchecked"):
            return T.sub(a, b)
        if op in ("Mul", "MulUnchecked"):
            return T.mul_g(a, b)
        if op.endswith("WithOverflow"):
            return tup(self.binop(fn, op[:3], a, b), boolval(FALSE))
        if op == "Div":
            return divint(a, b)
        if op == "Rem":
            return remint(a, b)
        if op in ("Eq", "Ne"):
            r = self.equal(a, b, self.optype(fn, rv))
            return boolval(r if op == "Eq" else bnot(r))
        if op == "Lt":
            return boolval(T.lt(a, b))
        if op == "Le":
            return boolval(T.le(a, b))
        if op == "Gt":
            return boolval(T.lt(b, a))
        if op == "Ge":
            return boolval(T.le(b, a))
        if op in ("BitAnd", "BitOr", "BitXor"):
            ty = self.optype(fn, rv)
            if ty == "bool" or a.op == "bool" or b.op == "bool":
                x, y = truth(a), truth(b)
                return boolval(band(x, y) if op == "BitAnd" else bor(x, y) if op == "BitOr" else bnot(T.biff(x, y)))
            return app(op, a, b)
        return app(op, a, b)

    def optype(self, fn, rv):
        if not rv:
            return ""
        for o in rv[2:4]:
            if "k" in o:
                return o["k"].get("ty", "")
            pl = o.get("c") or o.get("m")
            if pl and len(pl) == 1:
                return fn.d["locals"][pl[0]]
        return ""

    def equal(self, a, b, ty=""):
        if a.op == "discr" or b.op == "discr":
            if a.op == "discr" and b.op == "discr":
                return T.eqv(a.args[0], b.args[0])
            d, n = (a, b) if a.op == "discr" else (b, a)
            if n.op == "int":
                return self.switch_cond(d, str(n.args[0]), "")
        if ty == "bool" or a.op == "bool" or b.op == "bool":
            return T.biff(truth(a), truth(b))
        import models as M
        if M.is_numeric(ty) or a.op in ("int", "lin") or b.op in ("int", "lin"):
            return T.eqnum(a, b)
        return T.eqv(a, b)

    def val(self, mem, v, depth=0):
        """resolve references inside a value"""
        if not has_ref(v):
            return v
        if v.op == "ref":
            x = self.load(mem, v.args[0], v.args[1])
            return self.val(mem, x, depth + 1) if depth < 8 else x

        def f(x):
            if x.op == "ref":
                return self.val(mem, x, depth + 1) if depth < 8 else None
            return None
        return T.rebuild(v, f)[0]

    # -------------------------------------------------------------- calls
    def drop(self, fn, fr, bb, t, pc, mem):
        ty = t[3]
        base = ty.split("<")[0]
        if base in self.drop_types():
            key, path = self.locate(fr, mem, t[1])
            r = self.inline(self.drop_types()[base], [mk("ref", key, path)], fr, bb, pc, mem, None)
            if r is None:
                return None
            return r[1], r[2]
        return pc, mem

    def drop_types(self):
        d = getattr(self.P, "_dt", None)
        if d is None:
            d = {f.d["selfty"].split("<")[0]: f for f in self.P.impls.get(("core::ops::drop::Drop", "drop"), [])}
            self.P._dt = d
        return d

    def inline(self, callee, args, fr, bb, pc, mem, line):
        if line is None:
            line = fr.fn.blocks[bb]["l"] if bb is not None and bb < len(fr.fn.blocks) and fr.fn.blocks[bb] else 0
        if any(callee.path == p for p, _, _ in fr.stack) or callee.path == fr.fn.path or fr.depth > 40:
            self.assumptions.add("recursive call treated as unknown: " + callee.path)
            return mk("app", "rec:" + callee.path, *[self.val(mem, a) for a in args]), pc, mem
        fr2 = Frame(mk("frame", fr.id, callee.path, bb), callee,
                    fr.stack + ((fr.fn.path, fr.fn.file, line),), fr.loops, fr.depth + 1)
        return self.exec_fn(callee, args, fr2, pc, dict(mem))

    def resolve(self, f):
        for k in ("r", "p"):
            q = f.get(k)
            if q and q in self.P.fns:
                return self.P.fns[q]
        if f.get("t"):
            lst = self.P.impls.get((f["t"], f["n"]))
            if lst:
                s = f.get("s")
                best = [x for x in lst if s and x.d.get("self") == s] or \
                       [x for x in lst if x.crate == self.crate and (x.d.get("selfty") in ("C", "Self", None) or len(lst) == 1)] or \
                       ([lst[0]] if len(lst) == 1 else [])
                if best:
                    return best[0]
        return None

    def call(self, fn, fr, bb, t, pc, mem):
        f, ops, dest, tgt = t[1], t[2], t[3], t[4]
        line = t[5] if len(t) > 5 else None
        args = [self.operand(fn, fr, mem, o) for o in ops]
        return self.do_call(f, args, fr, bb, pc, mem, line)

    def do_call(self, f, args, fr, bb, pc, mem, line):
        if f is None or "op" in (f or {}):
            if f:
                v = self.operand(fr.fn, fr, mem, f["op"])
                return self.call_value(v, args, fr, bb, pc, mem, line)
            return mk("opaque", "call", fr.id, bb), pc, mem
        cx = Call(self, f, args, fr, bb, pc, mem, line)
        callee = self.resolve(f)
        if callee is not None:
            cut = self.cuts.get(callee.path)
            if cut is not None:
                return self.finish(cx, cut(cx))
            if f.get("n") == "clone" and f.get("t", "").endswith("Clone"):
                return args[0], pc, mem
            if "{closure#" in callee.path.split("::")[-1] and len(args) == 2 and args[1].op == "struct":   # arguments come as a tuple
                args = [args[0], *args[1].args[3:]]
            return self.inline(callee, args, fr, bb, pc, mem, line)
        p = f["p"]
        m = self.models.get(norm(p))
        if m is None and f.get("t"):
            m = self.models.get(norm(f["t"]).split("::")[-1] + "::" + f["n"])
        if m is None:
            m = self.models.get("*::" + f["n"])
        if m is None:
            self.unknown[p] = self.unknown.get(p, 0) + 1
            return self.finish(cx, cx.opaque(norm(p)))
        return self.finish(cx, m(cx))

    def finish(self, cx, r):
        if r is ABORT or cx.pc is FALSE:
            return None
        return r, cx.pc, cx.mem

    def call_value(self, v, args, fr, bb, pc, mem, line):
        """call a closure or function value"""
        if v.op == "ref":
            v = self.load(mem, v.args[0], v.args[1])
        if v.op == "struct" and v.args[0].startswith("closure:"):
            callee = self.P.fns.get(v.args[0][8:])
            if callee is not None:
                return self.inline(callee, [v] + list(args), fr, bb, pc, mem, line)
        if v.op == "fnptr" and v.args[0] in self.P.fns:
            return self.inline(self.P.fns[v.args[0]], list(args), fr, bb, pc, mem, line)
        if v.op == "fnptr":
            m = self.models.get(norm(v.args[0]))
            if m:
                cx = Call(self, {"p": v.args[0], "n": v.args[0].split("::")[-1], "a": []}, list(args), fr, bb, pc, mem, line)
                return self.finish(cx, m(cx))
        return app("callvalue", v, *[self.val(mem, a) for a in args]), pc, mem

    def event(self, kind, fr, bb, pc, line, **d):
        e = Event()
        e.kind, e.d, e.pc, e.seq = kind, d, pc, self.seq
        self.seq += 1
        e.loops, e.stack, e.fn, e.file = outer(fr.loops), fr.stack, fr.fn.path, fr.fn.file
        e.line = line if line is not None else 0
        e.owner = fr.fn
        self.events.append(e)
        return e


class _Abort:
    pass


ABORT = _Abort()


class Unroll(Exception):
    def __init__(self, lid):
        self.lid = lid


def outer(loops):
    """the loops summarised as a whole (rounds gone through one by one are not)"""
    return tuple(l for l in loops if l.op != "unroll")


class Call:
    """context given to models"""
    def __init__(self, I, f, args, fr, bb, pc, mem, line):
        self.I, self.f, self.args, self.fr, self.bb, self.pc, self.mem, self.line = I, f, args, fr, bb, pc, mem, line
        self.ty = f.get("a") or []

    def v(self, i):
        return self.I.val(self.mem, self.args[i])

    def vals(self):
        return [self.I.val(self.mem, a) for a in self.args]

    def event(self, kind, **d):
        return self.I.event(kind, self.fr, self.bb, self.pc, self.line, **d)

    def site(self):
        return mk("site", self.fr.id, self.bb, *self.fr.loops)

    def target(self, i=0):
        """(key, path) for a &mut argument, or None"""
        a = self.args[i]
        return (a.args[0], a.args[1]) if a.op == "ref" else None

    def get(self, i=0):
        """current value behind argument i"""
        return self.I.val(self.mem, self.args[i])

    def set(self, i, v):
        a = self.args[i]
        if a.op == "ref":
            self.I.store(self.mem, a.args[0], a.args[1], v)
        elif a.op == "gate":
            self.I.store_ref(self.mem, a, (), v)

    def callv(self, fv, args, pc=None, mem=None):
        r = self.I.call_value(fv, args, self.fr, ("cv", self.bb), self.pc if pc is None else pc,
                              dict(self.mem if mem is None else mem), self.line)
        return r

    def branch(self, cond, yes, no):
        """run yes()/no() (returning value; may use self) under cond / not cond and merge"""
        pc0, mem0 = self.pc, self.mem
        res = []
        for c, g in ((cond, yes), (bnot(cond), no)):
            p = band(pc0, c)
            if p is FALSE:
                continue
            self.pc, self.mem = p, dict(mem0)
            r = g()
            if r is ABORT or self.pc is FALSE:
                continue
            self.mem[("T",)] = r
            res.append((self.pc, self.mem))
        if not res:
            self.pc = FALSE
            return ABORT
        self.pc, self.mem = self.I.merge(res)
        return self.mem.pop(("T",))

    def opaque(self, name):
        a = self.vals()
        r = app(name, *a)
        for i, x in enumerate(self.args):
            if x.op == "ref":
                self.set(i, app("mut:" + name, INT(i), *a))
        return r


# ------------------------------------------------------------------ helpers
_hr = {}


def has_ref(t):
    r = _hr.get(t.id)
    if r is None:
        r = False
        st = [t]
        seen = set()
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if isinstance(x, Node):
                st += [x.hi, x.lo]
                continue
            if x.op == "ref":
                r = True
                break
            if x.op in ("frame", "lid", "site"):
                continue
            k = _hr.get(x.id)
            if k is False:
                continue
            for y in x.args:
                if isinstance(y, (Term, Node)):
                    st.append(y)
        _hr[t.id] = r
    return r


def mentions_any(t, lid):
    return T.contains(t, lambda y: y is lid or (y.op in ("lv", "ind") and y.args[0] is lid))


def keyname(k):
    """a stable hashable name for a memory key"""
    return mk("key", *k)


def get_path(v, path, I=None, mem=None):
    for p in path:
        if v.op == "ref" and I is not None:
            v = I.load(mem, v.args[0], v.args[1])
        if p == "*":
            if I is not None:
                v = I.val(mem, v)
        elif isinstance(p, str):
            v = proj(v, p)
        elif p[0] == "v":
            v = vproj(v, p[1], p[2])
        elif p[0] == "d":
            pass
        elif p[0] == "i":
            i = p[1]
            if v.op == "struct" and v.args[0] == "[]" and i.op == "int" and str(i.args[0]) in v.args[2]:
                v = proj(v, str(i.args[0]))
            else:
                v = app("index", v, i)
        else:
            v = app("slice", v, mk("const", str(p)))
    return v


def base_type(ty):
    ty = ty.strip()
    while ty.startswith("&"):
        ty = ty[1:].strip()
        if ty.startswith("'"):
            ty = ty.split(" ", 1)[1] if " " in ty else ""
        if ty.startswith("mut "):
            ty = ty[4:].strip()
    return ty.split("<")[0]


def put_path(v, path, x, adts=()):
    if not path:
        return x
    p = path[0]
    if isinstance(p, str):
        ad = adts[0] if adts else None
        inner = put_path(proj(v, p) if v is not UNINIT else UNINIT, path[1:], x, adts[1:])
        if ad is not None and v is not UNINIT and p in ad[1]:
            return T.with_field(v, p, inner, ad[1], ad[0])
        return T.with_field(v, p, inner)
    if p[0] == "v":
        old = vproj(v, p[1], p[2])
        new = put_path(old, path[1:], x)

        def f(l):
            if l.op == "struct" and l.args[1] == p[1]:
                return T.with_field(l, p[2], new)
            if l.op == "struct":
                return l
            return app("updv", l, mk("const", p[1] + "." + p[2]), new)
        return gmap(v, f) if v is not UNINIT else T.struct("?", p[1], (p[2],), [new])
    if p[0] == "d":
        return put_path(v, path[1:], x)
    if p[0] == "i" and p[1].op == "int" and v.op == "struct" and v.args[0] == "[]":
        return T.with_field(v, str(p[1].args[0]), put_path(proj(v, str(p[1].args[0])), path[1:], x))
    return app("updi", v, p[1] if isinstance(p[1], Term) else mk("const", str(p)), put_path(get_path(v, (p,)), path[1:], x))


def diff(a, b, path=()):
    """leaf paths at which two values differ"""
    if a is b:
        return
    if a.op == "struct" and b.op == "struct" and a.args[:3] == b.args[:3] and a.args[1] is None \
            and not a.args[0].startswith("closure:"):
        for f, x, y in zip(a.args[2], a.args[3:], b.args[3:]):
            yield from diff(x, y, path + (f,))
        return
    if a.op == "struct" and a.args[1] is None and b.op not in ("struct", "gate", "ref") and a.args[2] and b is not UNINIT \
            and a.args[0] != "[]":
        yield from diff(a, T.expand(b, a.args[0], a.args[2]), path)
        return
    if b.op == "struct" and b.args[1] is None and a.op not in ("struct", "gate", "ref") and b.args[2] and a is not UNINIT \
            and b.args[0] != "[]":
        yield from diff(T.expand(a, b.args[0], b.args[2]), b, path)
        return
    yield path


def remint(a, b):
    return T.lift2(a, b, lambda x, y: INT(x.args[0] % y.args[0]) if x.op == y.op == "int" and x.args[0] >= 0 < y.args[0] else app("rem", x, y))


def divint(a, b):
    def f(x, y):
        if x.op == "int" and y.op == "int" and y.args[0] > 0 and x.args[0] >= 0:
            return INT(x.args[0] // y.args[0])
        if y.op == "int" and y.args[0] > 0:
            c, d = T.to_lin(x)
            g = math.gcd(c, y.args[0], *d.values())
            if g > 1:
                x = T.from_lin(c // g, {t: k // g for t, k in d.items()})
                y = INT(y.args[0] // g)
            if y.args[0] == 1:
                return x
        elif y.op != "int":
            (x1, g), (y1, h) = T.content(x), T.content(y)
            k = math.gcd(g, h)
            if k > 1:
                x, y = T.scale(x1, g // k), T.scale(y1, h // k)
        return app("div", x, y)
    return T.lift2(a, b, f)
