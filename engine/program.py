"""The extracted program: functions, constants, types, control-flow graphs."""
import json
import os
import re
import sys

import terms as T

CRATES = ["common_constants", "common_errors", "common_events", "common_math", "common_rates",
          "common_structs", "common_proxies", "liquidity_layer", "price_aggregator", "controller"]


class Fn:
    __slots__ = ("d", "path", "name", "crate", "blocks", "argc", "rpo", "loops", "succ", "file", "line",
                 "root", "innermost", "preds", "_ret")

    def __init__(self, d, crate):
        self.d = d
        self.path, self.name, self.crate = d["path"], d.get("name"), crate
        self.blocks, self.argc = d["blocks"], d.get("argc", 0)
        self.file, self.line = d.get("file"), d.get("line")
        self.root = d.get("root")
        self.rpo = None

    def cfg(self):
        if self.rpo is not None:
            return
        n = len(self.blocks)
        succ = []
        for b in self.blocks:
            succ.append(_succs(b["t"]) if b else [])
        # iterative DFS
        order, state, back = [], [0] * n, []
        st = [(0, iter(succ[0]))]
        state[0] = 1
        while st:
            v, it = st[-1]
            for w in it:
                if state[w] == 0:
                    state[w] = 1
                    st.append((w, iter(succ[w])))
                    break
                elif state[w] == 1:
                    back.append((v, w))
            else:
                state[v] = 2
                order.append(v)
                st.pop()
        self.rpo = {b: i for i, b in enumerate(reversed(order))}
        self.succ = succ
        preds = {}
        for v in order:
            for w in succ[v]:
                preds.setdefault(w, []).append(v)
        self.preds = preds
        loops = {}
        for v, h in back:
            body = loops.setdefault(h, {h})
            st = [v]
            while st:
                x = st.pop()
                if x not in body:
                    body.add(x)
                    st += preds.get(x, [])
        self.loops = loops


    def returns(self, bb):
        """some path from the block reaches the function's return"""
        if not hasattr(self, "_ret"):
            self._ret = {i for i, b in enumerate(self.blocks) if b and b["t"][0] == "return"}
            work = list(self._ret)
            while work:
                for p in self.preds.get(work.pop(), []):
                    if p not in self._ret:
                        self._ret.add(p)
                        work.append(p)
        return bb in self._ret


def _succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        r = [b for _, b in t[2]]
        if t[3] is not None:
            r.append(t[3])
        return list(dict.fromkeys(r))
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[3]]
    return []


class Program:
    def __init__(self, mirdir, crates=CRATES):
        self.fns, self.promoted, self.consts, self.adts, self.traits = {}, {}, {}, {}, {}
        self.impls = {}
        self.closures = {}
        for c in crates:
            p = os.path.join(mirdir, c + ".json")
            done = False
            for line in open(p):
                d = json.loads(line)
                if "const" in d:
                    self.consts[d["const"]] = d["v"]
                elif "adt" in d:
                    self.adts[d["adt"]] = d
                elif "traitdef" in d:
                    self.traits[d["traitdef"]] = d
                elif "end" in d:
                    done = True
                elif d.get("promoted") is not None and "blocks" in d:
                    self.promoted[(d["path"], d["promoted"])] = Fn(d, c)
                elif "blocks" in d:
                    f = Fn(d, c)
                    self.fns[f.path] = f
                    if d.get("impl_trait"):
                        self.impls.setdefault((d["impl_trait"], d["name"]), []).append(f)
            if not done:
                raise SystemExit(f"analysis input for crate {c} is incomplete")
        for a, d in self.adts.items():
            if d.get("enum"):
                T.VARIANTS[a] = [v[0] for v in d["variants"]]
        T.VARIANTS.setdefault("core::option::Option", ["None", "Some"])
        T.VARIANTS.setdefault("core::result::Result", ["Ok", "Err"])
        T.VARIANTS.setdefault("core::cmp::Ordering", ["Less", "Equal", "Greater"])
        T.VARIANTS.setdefault("multiversx_sc_codec::multi_types::multi_value_optional::OptionalValue", ["Some", "None"])
        T.VARIANTS.setdefault("multiversx_sc::types::managed::basic::big_int_sign::Sign", ["Minus", "NoSign", "Plus"])
        T.VARIANTS.setdefault("core::ops::control_flow::ControlFlow", ["Continue", "Break"])

    def find(self, suffix):
        r = [f for p, f in self.fns.items() if p == suffix or p.endswith("::" + suffix)]
        return r

    def endpoints(self, crate):
        """exported name -> wrapper function, read from the generated dispatchers"""
        out = {}
        w = self.fns.get(crate + "::EndpointWrappers::call_init")
        for p, f in self.fns.items():
            if w is None and f.crate == crate and p.endswith("::EndpointWrappers::call_init"):
                w = f
        if w is not None:
            out["init"] = w
        for p, f in self.fns.items():
            if f.crate == crate and p.endswith("::EndpointWrappers::call"):
                names, sw = {}, {}
                for b in f.blocks:
                    if not b:
                        continue
                    t = b["t"]
                    if t[0] == "call" and t[1].get("n") == "eq":
                        for a in t[2]:
                            c = a.get("k", {}).get("tyconst")
                            if c:
                                names[t[3][0]] = c.strip('"')
                for b in f.blocks:
                    if b and b["t"][0] == "switch" and b["t"][3] is not None:
                        op = b["t"][1]
                        pl = op.get("m") or op.get("c")
                        if pl and pl[0] in names:
                            tb = f.blocks[b["t"][3]]
                            if tb and tb["t"][0] == "call" and tb["t"][1].get("n", "").startswith("call_"):
                                w = self.fns.get(tb["t"][1]["p"])
                                if w is not None:
                                    out[names[pl[0]]] = w
        return out


_nm = {}


def norm(p):
    """strip generic arguments from a path and keep the last two segments"""
    r = _nm.get(p)
    if r is None:
        q, d, prev = [], 0, ""
        for ch in p:
            if ch == "<":
                d += 1
            elif ch == ">" and prev != "-":
                d -= 1
            elif d == 0:
                q.append(ch)
            prev = ch
        parts = [x for x in "".join(q).split("::") if x]
        r = _nm[p] = "::".join(parts[-2:])
    return r
