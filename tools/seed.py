#!/usr/bin/env python3
"""Development tool: turn a bug description (python file with ID, PROPERTY, EDITS, DEMO, NEEDS, BREAKS) into /verif/seeded/<id>/,
after confirming in a scratch copy that it builds, passes the stable tests and is shown by its demonstration."""
import json, os, shutil, subprocess, sys, runpy
W = "/tmp/w"
DEMO_SH = '''#!/bin/bash
# Builds main.rs against the crates in the current directory and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=${HOME:-/root} PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true
unset RUSTFLAGS RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
arche-tape = { path = "$repo/arche_tape" }
untyped-vec = { path = "$repo/untyped_vec" }
[workspace]
T
cd "$d" || exit 3
export CARGO_TARGET_DIR="$d/t"
cargo build --offline -q 2>"$d/err" || { cat "$d/err"; exit 4; }
timeout 60 "$d/t/debug/demo"
'''

def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)

def main(spec):
    m = runpy.run_path(spec)
    sid = m["ID"]
    d = "/verif/seeded/" + sid
    if not os.path.isdir(W):
        sh("cp -a /repo %s" % W)
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", W)
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.sh", "w").write(m.get("DEMO_SH", DEMO_SH)); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/main.rs", "w").write(m["DEMO"])
    json.dump({"property": m["PROPERTY"], "needs": m["NEEDS"], "what_it_breaks": m["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    r = sh(d + "/demo.sh", W)
    if r.returncode:
        print(sid, "demo fails on the unchanged tree", r.returncode, (r.stdout + r.stderr)[-800:]); return 1
    for f, old, new in m["EDITS"]:
        s = open(os.path.join(W, f)).read()
        if s.count(old) != 1:
            print(sid, "edit matches", s.count(old), "times:", old[:60]); return 1
        open(os.path.join(W, f), "w").write(s.replace(old, new))
    p = sh("git diff", W).stdout
    open(d + "/patch.diff", "w").write(p)
    env = dict(os.environ, HOME="/root", PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_TARGET_DIR=W + "/target")
    r = sh("cargo test --workspace --all-targets --no-run --offline", W, env=env)
    if r.returncode:
        print(sid, "does not build", r.stderr[-1500:]); return 1
    r = sh("cargo test --workspace --offline --no-fail-fast 2>&1 | grep -E '^test |panicked'", W, env=env)
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    failed = [l for l in r.stdout.splitlines() if l.endswith("FAILED")]
    if failed:
        print(sid, "tests fail:", failed[:5])
        shutil.rmtree(d)
        return 1
    r = sh(d + "/demo.sh", W)
    print(sid, "demo with the patch:", r.returncode, (r.stdout + r.stderr).strip().splitlines()[-1:] )
    if r.returncode == 0:
        shutil.rmtree(d)
        return 1
    r = sh("python3 /verif/check.py %s --repo %s" % (m["PROPERTY"], W))
    print(sid, "check:", r.returncode, [l for l in r.stdout.splitlines() if not l.startswith("OK")][:6], r.stderr[-300:])
    return 0
rc = 0
for s in sys.argv[1:]:
    rc |= main(s)
sh("git checkout -q -- .", W)
sys.exit(rc)
