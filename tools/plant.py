"""Plants bugs: reads definitions, builds /verif/seeded/<id>/ after confirming each in a scratch copy.

usage: plant.py DEFS.py [ID...]     DEFS.py defines BUGS = {id: dict(property, edits=[(file, old, new)], demo, needs, what)}
A bug is kept when it changes only lines of the original repository, builds, passes the stable tests, and its
demonstration passes without and fails with it.
"""
import json, os, re, runpy, shutil, subprocess, sys
REPO, VERIF, BASE = "/repo", os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "1dd1ae9"
S = "/tmp/seed"
DEMO = '''#!/bin/bash
# Builds the program next to this file against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
crate=$PWD
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[dependencies]
henriks-parsing-project = { path = "$crate" }
[workspace]
EOF
export CARGO_TARGET_DIR="$tmp/target" CARGO_NET_OFFLINE=true
(cd "$tmp" && cargo build --offline -q 2> "$tmp/build.log") || { cat "$tmp/build.log"; exit 2; }
%s
'''
RUN = 'cd "$tmp" && timeout 60 "$tmp/target/debug/demo"\n'

def sh(cmd, cwd=None, timeout=600):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def stable(cwd):
    base = json.load(open("/opt/vp/BASELINE.json"))
    rc, out = sh("cargo test --offline --no-fail-fast --lib --bins 2>&1", cwd)
    ok = set(re.findall(r"^test (\S+) \.\.\. ok", out, re.M))
    want = json.dumps(base)
    bad = set(re.findall(r"^test (\S+) \.\.\. FAILED", out, re.M))
    miss = [t for t in bad if t in want]
    return miss, len(ok), out

def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    ids = sys.argv[2:] or list(bugs)
    shutil.rmtree(S, ignore_errors=True)
    sh(f"cp -a {REPO} {S}")
    base_missing, base_ok, _ = stable(S)
    for i in ids:
        b = bugs[i]
        sh("git checkout -q -- .", S)
        bad = None
        for f, old, new in b["edits"]:
            p = f"{S}/{f}"
            s = open(p).read()
            if s.count(old) < 1 or (s.count(old) > 1 and not b.get("first")):
                bad = f"{f}: found {s.count(old)} times: {old!r}"; break
            open(p, "w").write(s.replace(old, new, 1))
        if bad: print(i, "REJECT", bad); continue
        _, diff = sh("git diff", S)
        removed = [l[1:].strip() for l in diff.split("\n") if l.startswith("-") and not l.startswith("---")]
        f0 = {f: sh(f"git show {BASE}:{f}", S)[1] for f, _, _ in b["edits"]}
        foreign = [l for l in removed if l and not any(l in [x.strip() for x in t.split("\n")] for t in f0.values())]
        if foreign: print(i, "WARN lines not in the original:", foreign)
        rc, out = sh("cargo build --offline", S)
        if rc: print(i, "REJECT build", out[-1500:]); continue
        miss, ok, out = stable(S)
        if miss or ok < base_ok: print(i, "REJECT tests", miss, ok, base_ok); continue
        d = f"{VERIF}/seeded/{i}"
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(f"{d}/patch.diff", "w").write(diff)
        open(f"{d}/demo.rs", "w").write(b["demo"])
        open(f"{d}/demo.sh", "w").write(DEMO % (b.get("run") or RUN))
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(f"{d}/meta.json", "w"), indent=1)
        r1, o1 = sh(f"bash {d}/demo.sh", S)
        r0, o0 = sh(f"bash {d}/demo.sh", REPO)
        if r0 != 0 or r1 == 0:
            print(i, "REJECT demo: unchanged", r0, "patched", r1, o0[-800:], o1[-800:]); shutil.rmtree(d); continue
        print(i, "ok", "patched exit", r1, flush=True)
    shutil.rmtree(S, ignore_errors=True)
main()
