#!/usr/bin/env python3
"""mut.py SPEC.py OUTDIR: turns each (id, property, edits) of MUTANTS into OUTDIR/<id>/patch.diff when it builds and passes the existing tests."""
import sys, os, runpy, json, shutil, subprocess, tempfile, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seed
spec, out = sys.argv[1:3]
want = sys.argv[3:]
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def one(m):
    id, prop, edits = m
    copy = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo/.", copy], check=True)
        for f, old, new in edits:
            p = os.path.join(copy, f)
            t = open(p).read()
            if t.count(old) != 1: return id, f"edit {f}: {t.count(old)} matches of {old[:50]!r}"
            open(p, "w").write(t.replace(old, new))
        _, diff = seed.sh(["git", "diff"], copy)
        rc, o = seed.sh("RUSTUP_TOOLCHAIN=stable cargo build --offline --workspace 2>&1 && RUSTUP_TOOLCHAIN=stable RUSTFLAGS='--cfg rezip_verif' cargo check --offline -p librezip 2>&1", copy)
        if rc != 0: return id, "build: " + o[-1200:]
        missing = stable - seed.results(copy)
        if missing: return id, f"breaks tests {sorted(missing)[:3]}"
        d = os.path.join(out, id); os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": prop}, open(d + "/meta.json", "w"))
        return id, "ok"
    finally:
        shutil.rmtree(copy, ignore_errors=True)
ms = [m for m in runpy.run_path(spec)["MUTANTS"] if not want or m[0] in want]
with cf.ThreadPoolExecutor(4) as ex:
    for i, r in ex.map(one, ms): print(f"{i}: {r}", flush=True)
