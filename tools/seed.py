#!/usr/bin/env python3
"""Plants bugs: seed.py SPEC.py [id ...]  makes /verif/seeded/<id>/ from each entry of SEEDS in SPEC.py, after confirming in a
scratch copy of /repo that it builds, passes the existing tests, and that its demonstration tells it from the unchanged tree."""
import json, os, shutil, subprocess, sys, runpy, tempfile, concurrent.futures as cf

DEMO_RS = r'''#!/bin/bash
# Exit 0: behaves as the property says. Builds the program beside this file against the library in the current directory.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
t="$(mktemp -d)"
trap 'cd /; rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
librezip = { path = "$repo/lib" }
[profile.dev]
debug = 0
EOF
cd "$t" || exit 3
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg rezip_verif -Awarnings" RUST_BACKTRACE=0
cargo build -q --offline --target-dir "$t/target" || exit 3
timeout 120 "$t/target/debug/demo"
'''
DEMO_PY = r'''#!/bin/bash
# Exit 0: behaves as the property says. Builds the command line from the current directory, and runs it in a scratch folder.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'cd /; rm -rf "$t"' EXIT
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTFLAGS="-Awarnings" RUST_BACKTRACE=0
cargo build -q --offline -p rezippers --target-dir "$t/target" || exit 3
cp "$here/demo.py" "$t/"
cd "$t" || exit 3
timeout 120 python3 demo.py "$t/target/debug/rezippers"
'''
HEAD_RS = open(os.path.join(os.path.dirname(__file__), "demo_head.rs")).read()
HEAD_PY = open(os.path.join(os.path.dirname(__file__), "demo_head.py")).read()

def sh(cmd, cwd, timeout=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"

base = None
def results(copy):
    env = "export CARGO_TARGET_X86_64_UNKNOWN_LINUX_GNU_RUNNER='timeout -k 5 200' RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true;"
    log = copy + "/target/vp-test.log"
    rc, out = sh(f"{env} cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > {log} 2>&1; python3 /opt/vp/results.py {copy}/target/r.json cargo:{log}", copy)
    return set(json.load(open(copy + "/target/r.json"))["passed"])

def one(s):
    copy = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    out = os.path.join("/verif/seeded", s["id"])
    work = tempfile.mkdtemp(prefix="seedout-", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo/.", copy], check=True)
        if "py" in s:
            open(work + "/demo.sh", "w").write(DEMO_PY)
            open(work + "/demo.py", "w").write(HEAD_PY + s["py"])
        else:
            open(work + "/demo.sh", "w").write(DEMO_RS)
            open(work + "/demo.rs", "w").write(HEAD_RS + s["rs"])
        os.chmod(work + "/demo.sh", 0o755)
        rc, o = sh(["bash", work + "/demo.sh"], copy, 300)
        if rc != 0:
            return s["id"], f"demo fails on the unchanged tree ({rc}): {o[-1500:]}"
        for f, old, new in s["edits"]:
            p = os.path.join(copy, f)
            t = open(p).read()
            if t.count(old) != 1:
                return s["id"], f"edit of {f}: {t.count(old)} matches of {old[:60]!r}"
            open(p, "w").write(t.replace(old, new))
        _, diff = sh(["git", "diff"], copy)
        rc, o = sh("RUSTUP_TOOLCHAIN=stable cargo build --offline --workspace 2>&1", copy)
        if rc != 0:
            return s["id"], "does not build: " + o[-1500:]
        rc, o = sh(["bash", work + "/demo.sh"], copy, 300)
        if rc == 0:
            return s["id"], "demo passes with the patch"
        if rc == 3:
            return s["id"], "demo does not build with the patch: " + o[-800:]
        demo_out = o
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        missing = stable - results(copy)
        if missing:
            return s["id"], f"breaks tests: {sorted(missing)[:6]}"
        os.makedirs(out, exist_ok=True)
        for f in os.listdir(out):
            os.remove(os.path.join(out, f))
        for f in os.listdir(work):
            shutil.copy(os.path.join(work, f), out)
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        return s["id"], "kept; with the patch: " + " | ".join(demo_out.strip().splitlines()[-3:])[-200:]
    finally:
        shutil.rmtree(copy, ignore_errors=True)
        shutil.rmtree(work, ignore_errors=True)

if __name__ == "__main__":
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    want = sys.argv[2:]
    seeds = [s for s in seeds if not want or s["id"] in want]
    with cf.ThreadPoolExecutor(3) as ex:
        for i, r in ex.map(one, seeds):
            print(f"{i}: {r}", flush=True)
