#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ for every planted bug defined in tools/bugs/*.py
and confirms each in a scratch copy of /repo: the patch applies, changes lines
of the original repository, builds, passes the tests, and the demonstration
fails with it and passes without it.

usage: plant.py [ID...]   (all when no ID is given)
"""
import json, os, shutil, subprocess, sys, glob, runpy

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "d99080a"
WT = "/tmp/plant-wt"

DEMO = """#!/bin/bash
# exit 0 when the behaviour holds, non-zero when it does not
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d /tmp/demo-XXXXXXXX)
mkdir -p "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
latex-ast = { path = "$repo" }
[workspace]
TOML
set +e
(cd "$work" && timeout 200 cargo run --offline --quiet --target-dir "$work/target")
code=$?
find "$work" -depth -delete
exit $code
"""

def sh(cmd, cwd=None, **kw):
    return subprocess.run("export RUSTFLAGS=-Awarnings; " + cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)

def load():
    bugs = {}
    for f in sorted(glob.glob(os.path.join(VERIF, "tools", "bugs", "*.py"))):
        for b in runpy.run_path(f)["BUGS"]:
            assert b["id"] not in bugs, b["id"]
            bugs[b["id"]] = b
    return bugs

def reset():
    sh("git checkout -q -- . && git clean -qfd src", cwd=WT)

def main():
    bugs = load()
    want = sys.argv[1:] or list(bugs)
    if os.path.isdir(WT):
        sh("git checkout -q --detach $(git -C /repo rev-parse HEAD)", cwd=WT)
    else:
        r = sh(f"git worktree add --detach {WT} HEAD", cwd="/repo")
        assert r.returncode == 0, r.stderr
    reset()
    bad = 0
    for i in want:
        b = bugs[i]
        reset()
        problem = None
        for (f, old, new) in b["edits"]:
            p = os.path.join(WT, f)
            s = open(p).read()
            n = s.count(old)
            if n != 1:
                problem = f"{f}: {n} matches of {old!r}"
                break
            open(p, "w").write(s.replace(old, new))
        if problem:
            print(i, "EDIT", problem); bad += 1; continue
        patch = sh("git diff", cwd=WT).stdout
        # lines it removes must come from the original repository
        blame_bad = []
        cur = None; ln = 0; original = 0
        for line in patch.splitlines():
            if line.startswith("--- a/"):
                cur = line[6:]
                blame = sh(f"git blame -s HEAD -- {cur}", cwd=WT).stdout.splitlines()
            elif line.startswith("@@"):
                ln = int(line.split()[1][1:].split(",")[0])
            elif line.startswith("-"):
                c = blame[ln - 1].split()[0].lstrip("^")
                if c.startswith(BASE): original += 1
                else: blame_bad.append(line)
                ln += 1
            elif line.startswith(" "):
                ln += 1
        d = os.path.join(VERIF, "seeded", i)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(patch)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "main.rs"), "w").write(b["demo"].strip() + "\n")
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        with_build = sh("cargo build --offline --quiet --target-dir /tmp/plant-target", cwd=WT)
        tests = sh("cargo test --offline --quiet --target-dir /tmp/plant-target", cwd=WT)
        with_demo = sh(f"bash {d}/demo.sh", cwd=WT)
        reset()
        without_demo = sh(f"bash {d}/demo.sh", cwd=WT)
        ok = (with_build.returncode == 0 and tests.returncode == 0 and with_demo.returncode != 0
              and without_demo.returncode == 0 and original > 0 and not blame_bad)
        compile_fail = "could not compile" in with_demo.stderr
        print(i, b["property"], "ok" if ok and not compile_fail else "BAD",
              dict(build=with_build.returncode, tests=tests.returncode, with_demo=with_demo.returncode,
                   without=without_demo.returncode, original=original, nonoriginal=blame_bad), flush=True)
        if not ok or compile_fail:
            bad += 1
            if tests.returncode: print(tests.stdout[-600:], tests.stderr[-800:])
            if without_demo.returncode or compile_fail: print(without_demo.stdout[-500:], without_demo.stderr[-900:], with_demo.stderr[-700:] if compile_fail else "")
    reset()
    print("bad:", bad)
    return 1 if bad else 0

sys.exit(main())
