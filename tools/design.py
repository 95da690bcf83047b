"""Rewrite the generated table of DESIGN.md (between the markers) from the rules and properties."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/engine", V]
import rules

props = {d["id"]: d for d in map(json.loads, open(V + "/properties.jsonl"))}
out = []
for k in sorted(props):
    if k not in rules.RULES:
        continue
    r = rules.RULES[k]
    need = rules.NEEDS.get(k)
    out.append(f"### {k} {props[k]['title']}\n{r['explain']}" + (f" Rests on {', '.join(need)} (run along)." if need else "") +
               f" Rule: `rules/{r['fn'].__module__.split('.')[-1]}.py:{r['fn'].__name__}`.\n")
p = V + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- rules -->\n", "<!-- end rules -->\n"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n".join(out) + s[j:])

rows = ["| planted bug | caught by | what it breaks |", "|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    f = f"{V}/seeded/{d}/meta.json"
    if os.path.exists(f):
        m = json.load(open(f))
        rows.append(f"| {d} | {m['property']} | {m['what_it_breaks'].splitlines()[0]} |")
s = open(p).read()
a, b = "<!-- seeds -->\n", "<!-- end seeds -->\n"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
