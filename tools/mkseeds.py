#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the table in seeds.py and confirms each planted bug in a scratch copy of /repo:
it applies, builds, passes the stable tests, and its demonstration fails with it and passes without it.

usage: mkseeds.py [ID ...]      (all when none is given)
"""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS
import seeds2  # noqa: F401
import seeds3  # noqa: F401
import seeds4  # noqa: F401

OUT = "/verif/seeded"
DEMO = '''#!/bin/bash
# Exit 0 when the behaviour is as the property says.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=$(mktemp -d)
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src"
cp "$here/demo.rs" "$dir/src/main.rs"
cp "$repo/Cargo.lock" "$dir/" 2>/dev/null || true
cat > "$dir/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
soupy = { path = "$repo" }
regex = "1"
TOML
cd "$dir"
CARGO_TARGET_DIR="$dir/target" RUSTFLAGS=-Awarnings timeout 280 cargo run --offline -q
'''


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def brief(p):
    return [l[:200] for l in p.stdout.splitlines() if "error" in l or "panicked" in l or "-->" in l or "left:" in l or "right:" in l][:6]


def main():
    want = sys.argv[1:]
    scratch = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    wt = os.path.join(scratch, "wt")
    subprocess.check_call(["cp", "-a", "/repo", wt])
    bad = []

    def fail(x):
        bad.append(x)
        print('BAD', *x, flush=True)

    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    for s in SEEDS:
        if want and s["id"] not in want:
            continue
        sh("git checkout -q -- . && git clean -fdq", wt)
        d = os.path.join(OUT, s["id"])
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.rs", "w").write(s["demo"])
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        clean = sh("bash %s/demo.sh" % d, wt)
        if clean.returncode != 0:
            fail((s["id"], "demo fails on the unchanged tree:\n" + clean.stdout[-900:]))
            continue
        ok = True
        for f, old, new in s["edits"]:
            p = os.path.join(wt, "src", f)
            t = open(p).read()
            if t.count(old) != 1:
                fail((s["id"], "%d matches in %s for %r" % (t.count(old), f, old)))
                ok = False
                break
            open(p, "w").write(t.replace(old, new))
        if not ok:
            continue
        open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "diff"], cwd=wt, text=True))
        t = sh("cargo test --offline --all-features 2>&1", wt)
        if t.returncode != 0:
            fail((s["id"], "tests or build fail:\n" + '\n'.join(l for l in t.stdout.splitlines() if l.startswith(('error', 'test ')) and not l.endswith('ok') or ' --> ' in l)[-2000:]))
            continue
        buggy = sh("bash %s/demo.sh" % d, wt)
        if buggy.returncode == 0:
            fail((s["id"], "demo passes with the bug"))
            continue
        if "error[" in buggy.stdout or "could not compile" in buggy.stdout:
            fail((s["id"], "demo does not compile:\n" + buggy.stdout[-900:]))
            continue
        print("ok", s["id"], brief(buggy), flush=True)
    print('BAD:', [i for i, _ in bad])
    shutil.rmtree(scratch)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
