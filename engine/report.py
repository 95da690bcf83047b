"""Obligations, violations and evidence of one property check."""
import json
import os
import lib as L
import terms as T


class Report:
    def __init__(self, pid, W, tier):
        self.pid, self.W, self.tier = pid, W, tier
        self.obs = []          # (rule, construct, ok, why, where)
        self.lemma = ""
        self.notes = {}
        self.runs = set()

    def ob(self, rule, construct, ok, why="", where=""):
        self.obs.append(((self.lemma + ":" if self.lemma else "") + rule, construct, bool(ok), "" if ok else why, where))
        return bool(ok)

    def use(self, run):
        self.runs.add(run)
        return run

    def eq(self, rule, construct, pc, got, want, where=""):
        r = L.diff(pc, got, want)
        why = ""
        if r:
            why = f"value differs when {L.show(r[0], 3)[:400]}: found {L.show(r[1], 5)[:500]} expected {L.show(r[2], 5)[:500]}"
        return self.ob(rule, construct, r is None, why, where)

    def imp(self, rule, construct, pc, cond, what="", where=""):
        r = L.counter(pc, cond)
        why = ""
        if r is not None:
            why = f"{what or 'required condition ' + L.show(cond, 4)[:300]} does not hold on: {L.show(r, 3)[:500]}"
        return self.ob(rule, construct, r is None, why, where)

    def floor(self, what, n, least):
        self.notes[what] = n
        if n < least:
            self.ob("anchor", what, False, f"only {n} instances of '{what}' found, at least {least} expected")

    def key(self, o):
        return f"{o[0]}|{o[1]}"

    def violations(self):
        seen, out = set(), []
        for o in self.obs:
            if not o[2] and self.key(o) not in seen:
                seen.add(self.key(o))
                out.append(o)
        return out

    def coverage(self):
        fns, eps, ev, unk, ass = set(), [], 0, {}, set()
        for r in self.runs:
            fns |= r.I.visited
            eps.append(f"{r.crate}::{r.name}")
            ev += len(r.events)
            for k, v in r.I.unknown.items():
                unk[k] = unk.get(k, 0) + v
            ass |= set(map(str, r.I.assumptions))
        rules = {}
        for o in self.obs:
            q = rules.setdefault(o[0], [0, 0])
            q[0] += 1
            q[1] += o[2]
        return {
            "entry_points_analysed": sorted(eps),
            "functions_analysed": len(fns),
            "effects_examined": ev,
            "obligations": len(self.obs),
            "discharged": sum(o[2] for o in self.obs),
            "per_rule": {k: {"obligations": v[0], "discharged": v[1]} for k, v in rules.items()},
            "instances": [f"{o[0]}: {o[1]}" for o in self.obs][:400],
            "counts": self.notes,
            "opaque_externals": unk,
            "engine_assumptions": sorted(ass),
        }
