#!/usr/bin/env python3
"""try.py [-j N] [seed ids] [-- check ids]: runs the checks (default: the one for the seed's property) with the planted bug
applied, each in a private mount namespace where copies lie over /repo and /verif."""
import sys, os, json, subprocess, shutil, tempfile, re, concurrent.futures as cf
args = sys.argv[1:]
jobs = 4
if args[:1] == ["-j"]: jobs = int(args[1]); args = args[2:]
checks = []
if "--" in args: i = args.index("--"); args, checks = args[:i], args[i + 1:]
if checks == ["all"]: checks = [f"C{i:02}" for i in range(1, 26)]
seeds = args or sorted(os.listdir("/verif/seeded"))
def one(s):
    w = tempfile.mkdtemp(prefix="try-", dir="/tmp")
    try:
        subprocess.run(f"cp -a /repo {w}/repo && mkdir {w}/verif && cd /verif && cp -a harness run.sh known_findings.txt {w}/verif/ && mkdir {w}/verif/target && cp -a target/harness {w}/verif/target/ && mkdir {w}/verif/evidence", shell=True, check=True)
        patch = s if os.path.exists(s) else f"/verif/seeded/{s}/patch.diff"
        subprocess.run(["git", "apply", os.path.abspath(patch)], cwd=w + "/repo", check=True)
        meta = os.path.join(os.path.dirname(patch), "meta.json")
        ids = checks or [json.load(open(meta))["property"]]
        res = []
        for c in ids:
            p = subprocess.run(["unshare", "-m", "bash", "-c", f"mount --bind {w}/repo /repo && mount --bind {w}/verif /verif && cd /verif && VERIF_SEED=${{VERIF_SEED:-1}} VERIF_TIER=quick timeout 900 ./run.sh {c}"], capture_output=True, text=True)
            if len(ids) == 1 or p.returncode != 0:
                last = [l for l in (p.stdout + p.stderr).splitlines() if "VIOLATION" in l or "rror" in l or "what" in l] or (p.stdout + p.stderr).splitlines()
                res.append(f"{c}:{p.returncode}" + (" " + last[-1][:160] if len(ids) == 1 or p.returncode != 1 else ""))
        return s, "; ".join(res)
    finally:
        shutil.rmtree(w, ignore_errors=True)
with cf.ThreadPoolExecutor(jobs) as ex:
    for s, r in ex.map(one, seeds):
        print(f"{s}: {r}", flush=True)
