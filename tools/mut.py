"""Apply each edit of tools/mutants/<name>.py (MUTANTS = [(id, "bug"|"same", [(file, old, new)], [expected checks])])
to a scratch clone and run every check on it.  mut.py <name> [id ...]"""
import json, os, subprocess, sys
V, W = "/verif", os.environ.get("MUT", "/tmp/s")
S = W + "/repo"
E = dict(os.environ, VERIF_REPO=S, VERIF_BUILD=W + "/build")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


ns = {}
exec(open(f"{V}/tools/mutants/{sys.argv[1]}.py").read(), ns)
for id, kind, edits, expect in ns["MUTANTS"]:
    if sys.argv[2:] and id not in sys.argv[2:]:
        continue
    sh("git checkout -q -- . && git fetch -q && git reset -q --hard origin/HEAD", cwd=S)
    bad = None
    for f, old, new in edits:
        p = f"{S}/{f}"
        s = open(p).read()
        if s.count(old) != 1:  # again without comment lines
            s = "".join(l for l in s.splitlines(True) if not l.lstrip().startswith("//"))
        if s.count(old) != 1:  # and without blank lines
            s, old = ("".join(l for l in z.splitlines(True) if l.strip()) for z in (s, old))
        if s.count(old) != 1:
            bad = f"edit does not apply ({f}: {s.count(old)}: {old[:40]!r})"
            break
        open(p, "w").write(s.replace(old, new))
    if bad:
        print(id, bad, flush=True)
        continue
    r = sh("python3 engine/extract.py", cwd=V, env=E)
    if r.returncode:
        print(id, "does not build", r.stdout[-600:], flush=True)
        continue
    if "NOCHECK" in os.environ:  # only lay it out in $MUT
        break
    out = sh("tools/ckall.sh", cwd=V, env=E).stdout
    fails = [l.split()[0] for l in out.splitlines() if " rc=0" not in l and " rc=" in l]
    odd = [l for l in out.splitlines() if " rc=" in l and " rc=0" not in l and " rc=1" not in l]
    ok = bool(fails) if kind == "bug" and not expect else set(expect) <= set(fails) if kind == "bug" else not fails
    print(("ok  " if ok else "MISS" if kind == "bug" else "FALSE ALARM"), id, *sorted(fails), *odd, flush=True)
    if not ok and kind == "same":
        print("   ", "\n    ".join(l[:200] for l in out.splitlines()[:4]), flush=True)
