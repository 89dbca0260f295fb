#!/usr/bin/env python3
"""auto.py OUT.jsonl [-j N] [files...]: mechanical mutants of every source line of /repo (operators, constants, dropped
statements and swallowed errors). Keeps those that build and pass the existing tests, and runs the checks likely to see them,
then all others, until one does. Survivors are for reading by hand."""
import sys, os, re, json, subprocess, shutil, tempfile, threading, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seed
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
args = sys.argv[1:]; out = args.pop(0); jobs = 4
if args[:1] == ["-j"]: jobs = int(args[1]); args = args[2:]
ALL = [f"C{i:02}" for i in range(1, 25)]
FIRST = {
 "lib/src/parse.rs": "C02 C03 C01 C10 C13", "lib/src/huffman.rs": "C02 C01 C03 C20", "lib/src/code_tree.rs": "C02 C03 C20",
 "lib/src/bit.rs": "C12 C01 C02 C13 C20", "lib/src/serialise.rs": "C01 C02 C20 C13 C06", "lib/src/circles.rs": "C11 C02 C13",
 "lib/src/gzip.rs": "C09 C13", "lib/src/filter.rs": "C17", "lib/src/serialise_trace.rs": "C05 C13",
 "lib/src/trace.rs": "C04 C18 C23", "lib/src/tracer.rs": "C04 C23 C19", "lib/src/technique.rs": "C08 C07 C19 C04",
 "lib/src/all_refs.rs": "C08 C07 C04 C19", "lib/src/back_map.rs": "C08 C07 C04", "lib/src/lookahead.rs": "C07 C08 C04 C18",
 "lib/src/obscure.rs": "C08 C19", "lib/src/picker.rs": "C08 C19", "lib/src/iters.rs": "C08 C19", "lib/src/wams.rs": "C08 C19",
 "lib/src/lib.rs": "C05 C04 C02 C11", "rezippers/src/cat.rs": "C14 C21 C24", "rezippers/src/dump.rs": "C15 C21 C24",
 "rezippers/src/main.rs": "C21 C14", "rezippers/src/zero.rs": "C16 C21 C24",
}
files = args or list(FIRST)
OPS = [(" < "," <= "),(" < "," > "),(" <= "," < "),(" > "," >= "),(" >= "," > "),(" == "," != "),(" != "," == "),(" && "," || "),(" || "," && "),
 (" + "," - "),(" - "," + "),(" * "," + "),(" / "," * "),(" % "," / "),(" << "," >> "),(" >> "," << "),(" & "," | "),(" | "," & "),(" ^ "," | "),
 (" += "," -= "),(" -= "," += "),("..=",".."),("true","false"),("false","true"),("Some(","None.or(Some("),(".rev()",""),(".is_some()",".is_none()"),
 (".is_empty()",".is_empty() == false"),("break;","continue;"),("continue;","break;"),("min(","max("),(".filter(",".map(|x| x).skip_while("),
 ("wrapping_add","saturating_add"),("wrapping_sub","saturating_sub"),("?;",".ok();"),("as u16","as u8 as u16"),("as u8","as i8 as u8"),
 ("left","right"),("read_exact(&mut","read(&mut"),("write_all(","write("),("usize::from(","usize::from(1 + ")]
def mutants(f):
    lines = open("/repo/" + f).read().split("\n")
    hook = False
    for n, l in enumerate(lines):
        if "#[cfg(test)]" in l: break
        if "cfg(rezip_verif)" in l: hook = True
        if hook:
            if l == "}": hook = False
            continue
        s = l.strip()
        if not s or s.startswith(("//", "use ", "#[", "pub mod", "mod ", "extern")): continue
        code = l.split("//")[0]
        seen = set()
        def put(new, why):
            if new != l and new not in seen: seen.add(new); return [(n, l, new, why)]
            return []
        for a, b in OPS:
            i = code.find(a)
            while i >= 0:
                new = l[:i] + b + l[i+len(a):]
                if a == "Some(": new = None
                if new: yield from put(new, f"{a.strip()}→{b.strip()}")
                i = code.find(a, i + 1)
        for m in re.finditer(r"(?<![\w.'])(0x[0-9a-fA-F]+|\d[\d_]*)(?![\w.]*\w)", code):
            t = m.group(1)
            try: v = int(t.replace("_", ""), 0)
            except ValueError: continue
            for d in (1, -1):
                if v + d >= 0: yield from put(l[:m.start()] + str(v + d) + l[m.end():], f"{t}→{v+d}")
        if s.endswith(";") and not s.startswith(("let ", "return", "}", "break", "continue", "type", "const", "ensure!")) and s.count("(") == s.count(")"):
            yield from put("", "dropped")
        if s.startswith("ensure!") and s.endswith(";"): yield from put("", "dropped")
        m = re.match(r"(\s*(?:\} else )?if )(?!let\b)(.*)( \{)$", code)
        if m:
            yield from put(f"{m[1]}({m[2]}) && false{m[3]}", "never")
            yield from put(f"{m[1]}({m[2]}) || true{m[3]}", "always")
lock = threading.Lock()
done = set()
if os.path.exists(out): done = {json.loads(l)["id"] for l in open(out)}
def one(m):
    f, n, old, new, why = m
    id = f"{f}:{n+1}:{why}:{hash_(new)}"
    if id in done: return
    r = {"id": id, "old": old.strip(), "new": new.strip()}
    w = tempfile.mkdtemp(prefix="auto-", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
        p = f"{w}/repo/{f}"; L = open(p).read().split("\n"); assert L[n] == old; L[n] = new; open(p, "w").write("\n".join(L))
        rc, o = seed.sh("RUSTUP_TOOLCHAIN=stable timeout 200 cargo build --offline --workspace 2>&1", w + "/repo")
        if rc: r["result"] = "build"
        else:
            try: bad = stable - seed.results(w + "/repo")
            except Exception as e: bad = {"timeout"}
            if bad: r["result"] = "tests"
        if "result" not in r:
            subprocess.run(f"mkdir {w}/verif && cd /verif && cp -a harness run.sh known_findings.txt {w}/verif/ && mkdir {w}/verif/target && cp -a target/harness {w}/verif/target/ && mkdir {w}/verif/evidence", shell=True, check=True)
            first = FIRST.get(f, "").split()
            r["result"] = "SURVIVED"
            for c in first + [c for c in ALL if c not in first]:
                p = subprocess.run(["unshare", "-m", "bash", "-c", f"mount --bind {w}/repo /repo && mount --bind {w}/verif /verif && cd /verif && VERIF_SCALE=${{VERIF_SCALE:-0.2}} VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./run.sh {c}"], capture_output=True, text=True)
                if p.returncode == 1: r["result"] = "caught " + c; break
                if p.returncode != 0: r.setdefault("odd", []).append(f"{c}:{p.returncode}")
    except Exception as e:
        r["result"] = "error " + repr(e)[:200]
    finally:
        shutil.rmtree(w, ignore_errors=True)
    with lock:
        open(out, "a").write(json.dumps(r, ensure_ascii=False) + "\n")
def hash_(s):
    import hashlib; return hashlib.sha1(s.encode()).hexdigest()[:6]
ms = [(f, *m) for f in files for m in mutants(f)]
import random; random.Random(1).shuffle(ms)
print(len(ms), "mutants", flush=True)
if os.environ.get("COUNT"): sys.exit()
with cf.ThreadPoolExecutor(jobs) as ex: list(ex.map(one, ms))
