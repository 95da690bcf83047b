"""Dump the MIR of /repo's current working tree (all contract and common crates) as JSON lines."""
import glob, json, os, shutil, subprocess, sys, time
import view

BUILD = view.BUILD


def env(target):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC", "RUSTC_WRAPPER"):
            del e[k]
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e.update(RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=target,
             CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_DEBUG="0",
             CARGO_PROFILE_DEV_OVERFLOW_CHECKS="false", CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="false")
    return e


def build_driver():
    t = os.path.join(BUILD, "driver")
    d = os.path.join(view.VERIF, "engine", "driver")
    r = subprocess.run(["cargo", "build", "--offline", "--release", "-q"], cwd=d, env=env(t),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise SystemExit("driver build failed:\n" + r.stdout)
    return os.path.join(t, "release", "mirdump")


NAMES = ["common_constants", "common_errors", "common_math", "common_structs", "common_events", "common_rates",
         "common_proxies", "liquidity_layer", "price_aggregator", "flash_mock", "swap_mock", "controller"]


def dump(out, repo=view.REPO):
    drv = build_driver()
    ws = view.make(repo)
    t = os.path.join(BUILD, "target")
    # cargo's freshness cache would skip the wrapper: forget the workspace members
    for n in NAMES:
        for v in {n, n.replace("_", "-")}:
            shutil.rmtree(f"{t}/debug/build/{v}", ignore_errors=True)
            for p in glob.glob(f"{t}/debug/.fingerprint/{v}-*"):
                shutil.rmtree(p, ignore_errors=True)
    os.makedirs(out, exist_ok=True)
    for f in glob.glob(out + "/*"):
        os.unlink(f)
    e = env(t)
    sysroot = subprocess.run(["rustc", "--print", "sysroot"], env=e, capture_output=True, text=True).stdout.strip()
    e["LD_LIBRARY_PATH"] = sysroot + "/lib"
    e["RUSTC_WORKSPACE_WRAPPER"] = drv
    e["MIRDUMP_OUT"] = out
    r = subprocess.run(["cargo", "check", "--offline", "-q"], cwd=ws, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    missing = [n for n in NAMES if not os.path.exists(f"{out}/{n}.json")]
    if r.returncode or missing:
        raise SystemExit(f"extraction failed (missing {missing}):\n" + r.stdout[-4000:])
    return out


if __name__ == "__main__":
    t0 = time.time()
    print(dump(sys.argv[1] if len(sys.argv) > 1 else os.path.join(BUILD, "mir")), time.time() - t0)
