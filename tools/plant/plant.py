#!/usr/bin/env python3
"""plant.py make ID.. | confirm ID.. | catch ID.. [--checks C01,C02|all] | list
Bugs are described in bugs*.py (BUGS: id -> dict)."""
import glob, importlib.util, json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
SEEDED = VERIF + "/seeded"
SC = "/tmp/seedwork/repo"
def load():
    B = {}
    for f in sorted(glob.glob(HERE + "/bugs*.py")):
        s = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
        for k, v in m.BUGS.items():
            assert k not in B, k
            B[k] = v
    return B
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def scratch():
    if not os.path.isdir(SC):
        os.makedirs("/tmp/seedwork", exist_ok=True)
        subprocess.check_call(["cp", "-a", "/repo", SC])
    sh("git checkout -q -- . && git clean -fdq src && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=SC)
def make(i, b):
    scratch()
    for f, old, new in b["edits"]:
        p = f"{SC}/{f}"; s = open(p).read()
        if s.count(old) != 1: raise SystemExit(f"{i}: {f}: {s.count(old)} matches of {old!r}")
        open(p, "w").write(s.replace(old, new))
    d = sh("git diff -- src", cwd=SC).stdout
    o = f"{SEEDED}/{i}"; os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(d)
    open(o + "/main.rs", "w").write("mod q;\n#[allow(unused_imports)]\nuse q::*;\n" + b["demo"].strip() + "\n")
    shutil.copy(HERE + "/q.rs", o + "/q.rs")
    open(o + "/demo.sh", "w").write(open(HERE + "/demo.sh").read().replace("@ID@", i))
    os.chmod(o + "/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(o + "/meta.json", "w"), indent=1)
    sh("git checkout -q -- .", cwd=SC)
TEST = ". /opt/vp/env.sh >/dev/null; "
def confirm(i):
    o = f"{SEEDED}/{i}"; scratch()
    env = "export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TARGET_DIR=/tmp/seedwork/target; "
    clean = sh(f"bash {o}/demo.sh", cwd=SC)
    sh("git checkout -q -- .", cwd=SC)
    a = sh(f"git apply {o}/patch.diff", cwd=SC)
    t = sh(env + "cargo test --workspace --offline 2>&1 | grep -E '^test result|^error|^warning: unused' ; exit ${PIPESTATUS[0]}", cwd=SC, executable="/bin/bash")
    sh("git checkout -q -- Cargo.lock", cwd=SC)
    bug = sh(f"bash {o}/demo.sh", cwd=SC)
    sh("git checkout -q -- .", cwd=SC)
    good = a.returncode == 0 and clean.returncode == 0 and t.returncode == 0 and bug.returncode not in (0, 2)
    print(i, "CONFIRMED" if good else "BAD", "apply", a.returncode, "clean demo", clean.returncode, "tests", t.returncode, "bug demo", bug.returncode, flush=True)
    import re
    if not good: print(a.stdout[-500:], clean.stdout[-1500:], t.stdout[-800:], bug.stdout[-1500:], sep="\n--\n")
    else: print("   ", " ".join(re.findall(r"panicked at[^\n]*\n[^\n]*(?:\n +(?:left|right)[^\n]*)*", bug.stdout)).replace("\n", " ")[:200], flush=True)
    return good
def catch(ids, B, checks):
    props = [json.loads(l)["id"] for l in open(VERIF + "/properties.jsonl")]
    res = {}
    for i in ids:
        o = f"{SEEDED}/{i}"; p = json.load(open(o + "/meta.json"))["property"]
        todo = props if checks == "all" else checks.split(",") if checks else [p]
        assert sh("git status --porcelain", cwd="/repo").stdout == "", "repo not clean"
        assert sh(f"git apply {o}/patch.diff", cwd="/repo").returncode == 0
        try:
            got = {}
            for c in todo:
                t0 = time.time()
                r = sh(f"QV_DIR=/tmp/qvt VERIF_SEED=1 VERIF_TIER=quick ./check.sh {c}", cwd=VERIF)
                v = f"VIOLATION property={c} " in r.stdout
                got[c] = "caught" if r.returncode == 1 and v else "quiet" if r.returncode == 0 else f"error {r.returncode}"
                if c == p:
                    print(f"{i} {c}: {got[c]} ({time.time()-t0:.0f} s)", r.stdout.strip().replace("\n", " | ")[-350:] if got[c] != "quiet" else "", flush=True)
            if len(todo) > 1: print("   also:", " ".join(c for c in todo if c != p and got[c] == "caught"), "| errors:", [c for c in todo if got[c].startswith("error")], flush=True)
            res[i] = got
        finally:
            sh("git checkout -q -- .", cwd="/repo")
    f = "/tmp/seedwork/results.json"
    old = json.load(open(f)) if os.path.exists(f) else {}
    for k, v in res.items(): old.setdefault(k, {}).update(v)
    json.dump(old, open(f, "w"), indent=1)
if __name__ == "__main__":
    B = load(); cmd, args = sys.argv[1], sys.argv[2:]
    checks = ""
    if "--checks" in args:
        k = args.index("--checks"); checks = args[k + 1]; args = args[:k] + args[k + 2:]
    ids = args or sorted(B)
    ids = [j for a in ids for j in (sorted(B) if a == "all" else [a])]
    if cmd == "list":
        for i in ids: print(i, B[i]["property"], B[i]["breaks"])
    if cmd == "make":
        for i in ids: make(i, B[i])
    if cmd == "confirm":
        bad = [i for i in ids if not confirm(i)]
        print("bad:", bad)
    if cmd == "catch": catch(ids, B, checks)
