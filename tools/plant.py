#!/usr/bin/env python3
"""Makes and tries planted bugs (not used by any check).

  plant.py add SPEC.py [ID...]   make seeded/<id>/ for each bug of SPEC.py, after confirming it
  plant.py try [ID...]           run the check of each planted bug's property against it

SPEC.py defines BUGS, a list of dicts: id, prop, file, edits [(old, new), ...], needs, breaks, demo
(the main.rs of the demonstration). Optionally files {path: edits} instead of file/edits.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SCRATCH = "/tmp/plant_repo"
SEEDED = os.path.join(VERIF, "seeded")

DEMO_SH = r'''#!/bin/bash
# Run with cwd = the repository, after a build. Exit 0: behaves as stated; nonzero: it does not.
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="$PWD"
W="$(mktemp -d /tmp/demo.XXXXXXXX)" || exit 9
trap 'rm -rf -- "$W"' EXIT
mkdir -p "$W/src"
cp "$HERE/demo.rs" "$W/src/main.rs"
cp "$HERE/demo.lock" "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
trellis = { path = "$REPO/trellis" }
dot_parser = { path = "$REPO/dot_parser" }
[workspace]
EOF
cd "$W" || exit 9
export CARGO_TARGET_DIR="$W/target"
cargo build --offline -q 2>"$W/log" || { cat "$W/log" >&2; exit 8; }
timeout 120 "$W/target/debug/demo"
'''

def run(cmd, cwd=None, timeout=900, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout, errors="replace", env=env)
    return p.returncode, p.stdout

def fresh():
    if not os.path.exists(SCRATCH):
        subprocess.check_call(["cp", "-a", REPO, SCRATCH])
    run("git checkout -q -- . && git clean -fdq", SCRATCH)
    run("git fetch -q %s HEAD && git reset -q --hard FETCH_HEAD" % REPO, SCRATCH)

def lock():
    p = os.path.join(VERIF, "tools", "demo.lock")
    return open(p).read()

def make(bug):
    fresh()
    d = os.path.join(SEEDED, bug["id"])
    files = bug.get("files") or {bug["file"]: bug["edits"]}
    for f, edits in files.items():
        path = os.path.join(SCRATCH, f)
        s = open(path).read()
        for e in edits:
            old, new = e[0], e[1]
            if s.count(old) != 1:
                return "edit of %s matches %d times: %r" % (f, s.count(old), old[:60])
            s = s.replace(old, new)
        open(path, "w").write(s)
    rc, diff = run("git diff", SCRATCH)
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(d)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.rs"), "w").write(bug["demo"].lstrip("\n"))
    open(os.path.join(d, "demo.lock"), "w").write(lock())
    sh = os.path.join(d, "demo.sh")
    open(sh, "w").write(DEMO_SH.replace("cargo build --offline", bug.get("flags", "") + "cargo build --offline")); os.chmod(sh, 0o755)
    json.dump({"property": bug["prop"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    rc, out = run("cargo test --workspace --no-fail-fast --offline 2>&1", SCRATCH)
    passed = sum(int(m) for m in re.findall(r"(\d+) passed", out))
    failed = sum(int(m) for m in re.findall(r"(\d+) failed", out))
    want = len(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) or 31
    if "error: could not compile" in out or "error[" in out:
        shutil.rmtree(d); return "does not compile:\n" + out[-1500:]
    if failed or passed < 31:
        shutil.rmtree(d); return "tests: %d passed, %d failed" % (passed, failed)
    rc, out = run("bash %s" % sh, SCRATCH, 400)
    if rc == 0 or rc in (8, 9):
        shutil.rmtree(d); return "demo with the bug: rc=%d\n%s" % (rc, out[-1500:])
    first = (out.strip().splitlines() or [""])
    rc, out = run("bash %s" % sh, REPO, 400)
    if rc != 0:
        shutil.rmtree(d); return "demo without the bug: rc=%d\n%s" % (rc, out[-1500:])
    return None

def attempt(bid):
    d = os.path.join(SEEDED, bid)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    rc, out = run("git status --porcelain", REPO)
    assert out.strip() == "", out
    rc, out = run("git apply %s/patch.diff" % d, REPO)
    assert rc == 0, out
    t = time.time()
    try:
        env = dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
        rc, out = run("./check.sh %s" % prop, VERIF, 900, env)
    finally:
        run("git checkout -- .", REPO)
    v = [l for l in out.splitlines() if l.startswith("VIOLATION property=" + prop)]
    ok = rc == 1 and v
    print("%-8s %-28s %s rc=%d %.0fs %s" % ("CAUGHT" if ok else "MISSED", bid, prop, rc, time.time() - t,
          v[0] if v else out[-300:]), flush=True)
    return ok

if __name__ == "__main__":
    if sys.argv[1] == "add":
        ns = {}
        exec(open(sys.argv[2]).read(), ns)
        want = set(sys.argv[3:])
        for b in ns["BUGS"]:
            if want and b["id"] not in want: continue
            err = make(b)
            print(("kept " if not err else "DROP ") + b["id"] + ("" if not err else ": " + err), flush=True)
            if not err and not os.environ.get("NOTRY"):
                attempt(b["id"])
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
        r = [attempt(i) for i in ids]
        print("%d of %d caught" % (sum(map(bool, r)), len(r)))
