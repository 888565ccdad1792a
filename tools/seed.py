#!/usr/bin/env python3
"""Development aid: writes seeded/<id>/ from a table of planted bugs and confirms each in a scratch
copy of /repo: it applies, builds, passes the stable tests, and its demo tells the trees apart.
usage: seed.py FILE.py [id...]   (FILE.py defines BUGS)"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

LRP = '''#!/bin/bash
# builds the library of the current directory and runs the demonstration against it
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'find "$d" -delete' EXIT
rustc --edition 2021 -O -C debug-assertions=yes -A warnings --crate-type rlib --crate-name lrp src/lib.rs -o "$d/liblrp.rlib" || exit 3
rustc --edition 2021 -A warnings "$here/demo.rs" --extern lrp="$d/liblrp.rlib" -o "$d/demo" || exit 3
cd "$d" && timeout 60 ./demo
'''
WOP = '''#!/bin/bash
# builds the wop crate of the current directory and runs the demonstration against it
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'find "$d" -delete' EXIT
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
wop = { path = "$repo/wop" }
lrp = "0.1.0"
[workspace]
EXTRA
END
cd "$d" && CARGO_TARGET_DIR=$d/target cargo build --offline -q 2>/dev/null || exit 3
timeout 100 "$d/target/debug/demo" "$repo/wop/src/wop.grammar" 2>/dev/null
'''

def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)

def main():
    ns = {'V': V}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    stable = None
    work = tempfile.mkdtemp(prefix="seed")
    try:
        sh(f"git -C /repo worktree prune")
        repo = work + "/repo"
        sh(f"git clone -q /repo {repo}")
        for b in ns["BUGS"]:
            if only and b["id"] not in only:
                continue
            d = f"{V}/seeded/{b['id']}"
            os.makedirs(d, exist_ok=True)
            sh("git checkout -q -- .", cwd=repo)
            ok = True
            for f, old, new in b["edits"]:
                s = open(f"{repo}/{f}").read()
                if s.count(old) != 1 and not b.get("nth"):
                    print(b["id"], "edit matches", s.count(old), "times:", old[:60]); ok = False; break
                open(f"{repo}/{f}", "w").write(s.replace(old, new, 1) if not b.get("all") else s.replace(old, new))
            if not ok:
                continue
            open(d + "/patch.diff", "w").write(sh("git diff", cwd=repo).stdout)
            if b["kind"] == "sh":
                open(d + "/demo.sh", "w").write(b["demo"])
            else:
                open(d + "/demo.sh", "w").write(LRP if b["kind"] == "lrp" else WOP.replace("EXTRA", b.get("extra", "")))
                open(d + "/demo.rs", "w").write(b["demo"])
            for n, t in b.get("files", {}).items():
                open(f"{d}/{n}", "w").write(t)
            os.chmod(d + "/demo.sh", 0o755)
            json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
            t = sh(f"CARGO_TARGET_DIR={work}/t cargo test --offline 2>&1", cwd=repo)
            sh("git checkout -q Cargo.lock", cwd=repo)
            passed = sum(int(l.split(" passed")[0].split()[-1]) for l in t.stdout.splitlines() if l.startswith("test result"))
            if "wop/" in b["edits"][0][0]:
                w = sh(f"CARGO_TARGET_DIR={work}/w cargo test --offline 2>&1", cwd=repo + "/wop")
                if w.returncode: print(b["id"], "wop does not build or its tests fail", w.stdout[-600:])
                sh("git checkout -q Cargo.lock wop/Cargo.lock", cwd=repo)
            bad = sh(f"bash {d}/demo.sh", cwd=repo)
            sh("git checkout -q -- .", cwd=repo)
            good = sh(f"bash {d}/demo.sh", cwd=repo)
            st = "OK " if t.returncode == 0 and bad.returncode != 0 and good.returncode == 0 else "BAD"
            print(st, b["id"], b["property"], f"tests rc={t.returncode} passed={passed} demo with={bad.returncode} without={good.returncode}", flush=True)
            if st == "BAD":
                print("   ", [l for l in t.stdout.splitlines() if "FAILED" in l or "error" in l][:6], good.stdout[-300:], good.stderr[-600:])
    finally:
        shutil.rmtree(work)

main()
