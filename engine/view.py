"""Lay out a cargo-resolvable (offline) view of /repo's working tree.

Everything is a symlink into /repo (so what is analysed is /repo's own source), except that
[dev-dependencies] are dropped from the manifests (they name git sources, and test code is
not analysed) and Cargo.lock is a copy."""
import os, re, shutil, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))

CRATES = ["common/constants", "common/errors", "common/math", "common/structs", "common/events",
          "common/rates", "common/proxies", "liquidity_layer", "price_aggregator",
          "flash_mock", "swap_mock", "controller"]


def strip_dev(text):
    out, dev = [], False
    for line in text.splitlines(keepends=True):
        s = line.strip()
        if s.startswith("["):
            dev = bool(re.match(r"\[dev-dependencies\b", s)) or s.startswith("[[test]]")
        if not dev:
            out.append(line)
    return "".join(out)


def put(path, text):
    if os.path.islink(path):
        os.unlink(path)
    if not os.path.exists(path) or open(path).read() != text:
        os.makedirs(os.path.dirname(path), exist_ok=True)
        open(path, "w").write(text)


def link(src, dst):
    if os.path.islink(dst) and os.readlink(dst) == src:
        return
    if os.path.islink(dst) or os.path.isfile(dst):
        os.unlink(dst)
    elif os.path.isdir(dst):
        shutil.rmtree(dst)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    os.symlink(src, dst)


def make(repo=REPO, ws=None):
    ws = ws or os.path.join(BUILD, "ws")
    os.makedirs(ws, exist_ok=True)
    for c in CRATES:
        put(f"{ws}/{c}/Cargo.toml", strip_dev(open(f"{repo}/{c}/Cargo.toml").read()))
        link(f"{repo}/{c}/src", f"{ws}/{c}/src")
    members = ",\n".join(f'    "{c}"' for c in CRATES)
    put(f"{ws}/Cargo.toml", f'[workspace]\nresolver = "2"\nmembers = [\n{members}\n]\n')
    put(f"{ws}/Cargo.lock", open(f"{repo}/Cargo.lock").read())
    return ws


if __name__ == "__main__":
    print(make())
