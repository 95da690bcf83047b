#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]  - decide one property on /repo's current source."""
import fcntl
import importlib
import json
import os
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(ROOT, "engine"), ROOT]
os.environ.setdefault("VERIF", ROOT)
sys.setrecursionlimit(200000)


def known():
    p = os.path.join(ROOT, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


LIMIT = int(os.environ.get("VERIF_LIMIT", 540))     # seconds: what takes longer is not decided


def judge(pid, W, tier, limit=None):
    import lib
    import report
    from rules import RULES, closure
    R = report.Report(pid, W, tier)
    def late(*a):
        raise Late()
    try:
        if limit:
            signal.signal(signal.SIGALRM, late)
            signal.alarm(limit)
        for q in closure(pid):
            R.lemma = "" if q == pid else q
            RULES[q]["fn"](W, R)
    except lib.Missing as e:
        R.ob("anchor", str(e), False, f"{e} no longer exists: nothing to decide the property on")
    except (Late, MemoryError):
        if not limit:
            raise
        R.ob("undecided", R.lemma or pid, False, "the values computed are not shown to be the specified ones within the time allowed")
    except Exception as e:
        R.ob("undecided", type(e).__name__, False, f"the rule cannot read this code: {str(e)[:300]}", traceback.format_exc().splitlines()[-3].strip())
    finally:
        if limit:
            signal.alarm(0)
    return R


class Late(BaseException):
    pass


def committed(pid, W, tier, t0):
    """the same rules on committed transactions only; None when that does not settle them in time"""
    import lib

    def late(*a):
        raise Late()
    lib.COMMITTED = True
    signal.signal(signal.SIGALRM, late)
    signal.alarm(max(1, min(75, int(720 - (time.time() - t0)))))
    try:
        R = judge(pid, W, tier)
        return None if R.violations() else R
    except (Late, MemoryError, RecursionError):
        return None
    finally:
        signal.alarm(0)
        lib.COMMITTED = False


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    import extract
    import lib
    import report
    from rules import RULES, closure
    if pid not in RULES:
        raise SystemExit(f"unknown property {pid}")
    os.makedirs(extract.BUILD, exist_ok=True)
    mir = os.path.join(extract.BUILD, "mir")
    with open(os.path.join(extract.BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.environ.get("VERIF_NODUMP") != "1":
            extract.dump(mir)
        W = lib.World(mir)
    t1 = time.time()
    rule = RULES[pid]
    others = closure(pid)[1:]
    R = judge(pid, W, tier, LIMIT)
    if R.violations():
        # once more, with every effect that a later failure undoes left out
        R = committed(pid, lib.World(mir), tier, t0) or R
    viol = R.violations()
    kf = {f["key"]: f for f in known()["findings"] if f["property"] == pid}
    fresh = []
    evd = os.path.join(ROOT, "evidence")
    os.makedirs(os.path.join(evd, "replay"), exist_ok=True)
    for o in viol:
        f = kf.get(R.key(o))
        if f:
            print(f"KNOWN-FINDING: property={pid} {f['what']}")
        else:
            fresh.append(o)
    cov = R.coverage()
    cov["explanation"] = rule["explain"] + (" Decided together with what it rests on: " + ", ".join(others) if others else "")
    cov["rule"] = rule["explain"]
    cov["violation_list"] = [{"rule": o[0], "construct": o[1], "why": o[3], "where": o[4]} for o in fresh]
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
          "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "assumptions": ASSUME + rule.get("assume", []),
          "violations": len(fresh)}
    json.dump(ev, open(os.path.join(evd, pid + ".json"), "w"), indent=1)
    print(f"{pid}: {cov['obligations']} obligations on {len(cov['entry_points_analysed'])} entry points, "
          f"{cov['functions_analysed']} functions; extraction {t1 - t0:.1f}s analysis {time.time() - t1:.1f}s")
    if fresh:
        rp = os.path.join(evd, "replay", pid + ".txt")
        with open(rp, "w") as fh:
            for o in fresh:
                fh.write(f"rule {o[0]}\nconstruct {o[1]}\nwhere {o[4]}\n{o[3]}\n\n")
        for o in fresh[:12]:
            print(f"  [{o[0]}] {o[1]} {o[4]}\n      {o[3][:700]}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    return 0


ASSUME = [
    "the behaviour of the MultiversX framework is as modelled in engine/models.py",
    "fixed-point helpers (half-up multiply, divide, rescale) are pure functions, judged by their own property",
]

if __name__ == "__main__":
    sys.exit(main())
