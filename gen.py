#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props/*.py."""
import json
import os

ROOT = os.path.dirname(os.path.abspath(__file__))
PROPS, NA = [], []
TECH = ("static analysis of the compiler's MIR: gated-value dataflow over every path of the entry points, "
        "compared with a declared specification")
NOTE = ("Decided for all inputs and stored states on every path of the analysed functions, by equality / implication of "
        "gated values computed from the current MIR; rests on the model of the MultiversX framework calls "
        "(engine/models.py) and on a decision procedure that is sound for the boolean and linear fragment used. ")


def prop(id, title, statement, over, text, why, files, mech, technique="", note="", state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    assert len([s for s in statement.split(". ") if s]) <= 3, id
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    a["hook_needed"] = None
    PROPS.append(dict(row=dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                               why_tests_cant=why, anchors=a), technique=technique or TECH, note=NOTE + note))


def na(id, reason):
    NA.append({"property": id, "reason": reason})


def main():
    import props  # noqa
    PROPS.sort(key=lambda p: p["row"]["id"])
    gone = {n["property"] for n in NA}
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p["row"]) + "\n")
    checks = [{"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
               "technique": p["technique"], "level": "other", "level_note": p["note"].strip()}
              for p in PROPS for i in [p["row"]["id"]] if i not in gone]
    json.dump({"version": 1, "setup_cmd": "python3 engine/extract.py", "checks": checks, "not_applicable": NA},
              open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    print(len(PROPS), "properties", len(checks), "checks", len(NA), "not applicable")


if __name__ == "__main__":
    import sys
    sys.modules["gen"] = sys.modules["__main__"]
    main()
