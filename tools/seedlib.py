"""Plant one bug in a scratch clone, confirm its demo, run the property's check on it, keep it under seeded/."""
import json, os, shutil, subprocess, sys
V = "/verif"; S = "/tmp/s2/repo"
DEMO = '''#!/bin/bash
# exit 0: the property held in this history; nonzero: it was broken. Run in the repository's root after a build.
set -u
here=$(cd "$(dirname "$0")" && pwd)
root=$PWD
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here"/*.rs "$work/src/"
sed "s#\\"/repo/#\\"$root/#" "$here/demo.toml" > "$work/Cargo.toml"
cp "$root/Cargo.lock" "$work/" 2>/dev/null
export CARGO_TARGET_DIR=${DEMO_TARGET:-$work/target} CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
cd "$work" && cargo build --offline -q 2>"$work/log" || { tail -30 "$work/log"; exit 3; }
"$CARGO_TARGET_DIR/debug/demo"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def demo(d):
    r = sh(f"bash {d}/demo.sh", cwd=S, env=dict(os.environ, DEMO_TARGET="/tmp/s2/target"))
    return r.returncode, r.stdout[-300:]


def check(prop):
    r = sh(f"python3 check.py {prop} quick", cwd=V, env=dict(os.environ, VERIF_REPO=S, VERIF_BUILD="/tmp/s2/build"))
    return r.returncode, "\n".join(l for l in r.stdout.splitlines() if not l.startswith("P") or "obligations" not in l)


def seed(id, prop, edits, main, needs, breaks, also=(), keep=True, w=260):
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    sh("git checkout -q -- . && git fetch -q && git reset -q --hard origin/HEAD", cwd=S)
    for f, old, new in edits:
        p = f"{S}/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            print(id, "EDIT does not apply", f, s.count(old)); return
        open(p, "w").write(s.replace(old, new))
    open(f"{d}/patch.diff", "w").write(subprocess.run("git diff", shell=True, cwd=S, stdout=subprocess.PIPE, text=True).stdout)
    shutil.copy(f"{V}/demo/src/h.rs", f"{d}/h.rs")
    shutil.copy(f"{V}/demo/Cargo.toml", f"{d}/demo.toml")
    open(f"{d}/demo.sh", "w").write(DEMO)
    if not main.startswith("#![raw]"):
        main = "mod h;\nuse h::*;\nfn main() {\n" + main.strip("\n") + "\n}\n"
    else:
        main = main[8:]
    open(f"{d}/main.rs", "w").write(main)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    bad = demo(d)
    res = []
    for q in (prop,) + tuple(also):
        c = check(q)
        res.append((q, c[0]))
        if q == prop:
            msg = c[1]
    sh("git checkout -q -- .", cwd=S)
    good = demo(d)
    ok = good[0] == 0 and bad[0] not in (0, 2, 3)
    print(f"{id}: demo clean={good[0]} bug={bad[0]} {'OK' if ok else 'DEMO BAD'} checks={res}")
    if not ok:
        print("   clean:", good[1], "\n   bug:", bad[1])
    if res[0][1] != 1:
        print("   MISSED")
    print("   " + msg[:w])
