#!/usr/bin/env python3
"""stage.py ID: the coverage-guided part of a thorough check, after the random part has passed. Builds the libFuzzer target from
/repo's working tree, searches from generated starting points for REZIP_FUZZ_SECONDS, adds what it did to the evidence, and turns a
failing input into a shortened replay file."""
import os, sys, json, re, glob, shutil, struct, subprocess, tempfile
id = sys.argv[1]
root = os.environ["VERIF_ROOT"]
here = root + "/fuzz"
secs = int(os.environ.get("REZIP_FUZZ_SECONDS", "240"))
seed = int(os.environ.get("VERIF_SEED", "1") or 1)
main = root + "/target/harness/release/rezip-verif"
env = dict(os.environ, RUSTUP_TOOLCHAIN="nightly", RUSTFLAGS="--cfg rezip_verif")
b = subprocess.run(["cargo", "fuzz", "build", "-s", "none", "--fuzz-dir", here, "--target-dir", root + "/target/fuzz", "choices"],
                   cwd=here, env=env, capture_output=True, text=True)
if b.returncode:
    sys.stderr.write(b.stderr[-3000:] + "\nstage.py: build failed\n"); sys.exit(2)
exe = [p for p in glob.glob(root + "/target/fuzz/*/release/choices") if os.access(p, os.X_OK)][0]

def replay(case, dir):
    p = f"{dir}/case.json"
    json.dump(case, open(p, "w"))
    r = subprocess.run([main, id, "--replay", p], capture_output=True, text=True)
    m = re.search(r"^failure: (.*)$", r.stdout, re.M)
    return (m.group(1) if m else "fails") if r.returncode == 1 else None

def shorten(items, make, dir):
    """drop, then zero, ever smaller pieces while it still fails"""
    tries = 0
    for act in ("drop", "zero"):
        step = max(1, len(items) // 2)
        while step and tries < 600:
            at = 0
            while at < len(items) and tries < 600:
                t = items[:at] + ([] if act == "drop" else [0] * len(items[at:at+step])) + items[at+step:]
                tries += 1
                if t != items and replay(make(t), dir): items = t; at += 0 if act == "drop" else step
                else: at += step
            step //= 2
    return items

def search(raw, dir):
    os.makedirs(f"{dir}/corpus"); os.makedirs(f"{dir}/work")
    subprocess.run([main, id, "--seeds", f"{dir}/corpus"] + (["--raw"] if raw else []), check=True)
    e = dict(os.environ, REZIP_PROP=id)
    if raw: e["REZIP_RAW"] = "1"
    procs = [subprocess.Popen([exe, f"{dir}/corpus", f"-seed={seed * 100 + k}", f"-max_total_time={secs}", "-timeout=100", "-rss_limit_mb=3000",
              "-max_len=4096", "-len_control=0", "-reload=1", "-print_final_stats=1", "-use_value_profile=%d" % (k % 2), f"-artifact_prefix={dir}/work/"],
              cwd=f"{dir}/work", env=e, stdout=subprocess.DEVNULL, stderr=open(f"{dir}/{k}.log", "w")) for k in range(8)]
    for p in procs: p.wait()
    runs = edges = feats = 0
    for k in range(8):
        log = open(f"{dir}/{k}.log", errors="replace").read()
        m = re.search(r"number_of_executed_units: (\d+)", log); runs += int(m.group(1)) if m else 0
        for m in re.finditer(r"cov: (\d+) ft: (\d+)", log): edges = max(edges, int(m.group(1))); feats = max(feats, int(m.group(2)))
    st = {"form": "raw bytes" if raw else "choices", "executions": runs, "edges": edges, "features": feats,
          "corpus": len(os.listdir(f"{dir}/corpus")), "seconds": secs}
    for a in sorted(glob.glob(f"{dir}/work/*-*")):
        d = open(a, "rb").read()
        if raw: items, make = list(d), lambda t: {"property": id, "raw": bytes(t).hex()}
        else: items, make = [struct.unpack("<I", d[i:i+4])[0] for i in range(0, len(d) // 4 * 4, 4)], lambda t: {"property": id, "choices": t}
        if not replay(make(items), dir): continue
        items = shorten(items, make, dir)
        case = make(items); case["message"] = replay(case, dir)
        return st, case
    return st, None

stats, bad = [], None
for raw in ([False, True] if id in ("C01", "C02", "C03", "C05", "C09") else [False]):
    dir = tempfile.mkdtemp(prefix="rezip-fuzz-")
    try:
        st, bad = search(raw, dir)
        stats.append(st)
        print(f"{id} coverage-guided: {st}", flush=True)
    finally:
        shutil.rmtree(dir, ignore_errors=True)
    if bad: break
p = f"{root}/evidence/{id}.json"
ev = json.load(open(p))
ev["coverage"]["coverage_guided"] = stats
ev["coverage"]["evaluations"] += sum(s["executions"] for s in stats)
ev["violations"] += bad is not None
json.dump(ev, open(p, "w"), indent=2); open(p, "a").write("\n")
if bad:
    os.makedirs(f"{root}/evidence/replays", exist_ok=True)
    path = f"{root}/evidence/replays/{id}-{seed}-fuzz.json"
    json.dump(bad, open(path, "w"))
    print("failure:", bad["message"]); print(f"VIOLATION property={id} replay={path}")
    sys.exit(1)
