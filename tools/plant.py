#!/usr/bin/env python3
"""plant.py make SPEC.py...   confirm the planted bugs a spec describes in a scratch copy and keep them in seeded/
   plant.py catch ID...       apply each to /repo, run its property's check, undo
A spec defines BUGS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo=rust main.rs | sh=shell)]"""
import json, os, subprocess, sys, shutil, runpy, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plant/repo"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
CARGO = '''[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
corecrypto = { package = "volaris-crypto", path = "%(repo)s/crates/volaris-crypto" }
tools = { package = "volaris-tools", path = "%(repo)s/crates/volaris-tools" }
rand = "0.8.5"
blake3 = "1.5.4"
zip = { version = "2.2.0", default-features = false, features = ["zstd"] }
[profile.dev]
opt-level = 1
'''
DEMO = r'''#!/bin/bash
# builds the program beside this file against the crates in the current directory and runs it in a scratch folder
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src" "$t/tmp" && cp "$here/demo.rs" "$t/src/main.rs" && cp "$repo/Cargo.lock" "$t/Cargo.lock" || exit 2
sed "s#@REPO@#$repo#" > "$t/Cargo.toml" <<'EOT'
''' + (CARGO % {"repo": "@REPO@"}) + r'''EOT
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target"
cargo build -q --offline --manifest-path "$t/Cargo.toml" 2> "$t/log" || { cat "$t/log"; exit 2; }
cd "$t/tmp" && TMPDIR="$t/tmp" HOME="$t/tmp" timeout 250 "$t/target/debug/demo" < /dev/null
'''
DEMOSH = r'''#!/bin/bash
# runs the command line built from the current directory in a scratch folder
repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/tmp"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target"
(cd "$repo" && cargo build -q --offline -p volaris-cli) 2> "$t/log" || { cat "$t/log"; exit 2; }
V="$t/target/debug/volaris-cli"
cd "$t/tmp" || exit 2
export TMPDIR="$t/tmp" HOME="$t/tmp"
'''
def sh(c, cwd=None, **k): return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def copy():
    os.makedirs("/tmp/plant", exist_ok=True)
    if not os.path.exists(W): subprocess.check_call(["cp", "-a", "/repo", W])
    for n in ("build.sh", "test.sh"):
        open("/tmp/plant/" + n, "w").write(open("/opt/vp/" + n).read().replace("/repo", W))
    sh("git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD && git checkout -q -- .", W)
    assert sh("git rev-parse HEAD", W).stdout == sh("git rev-parse HEAD", "/repo").stdout
def make(b):
    d = os.path.join(H, "seeded", b["id"])
    sh("git checkout -q -- .", W)
    os.makedirs(d, exist_ok=True)
    if "demo" in b:
        open(d + "/demo.rs", "w").write(b["demo"]); open(d + "/demo.sh", "w").write(DEMO)
    else: open(d + "/demo.sh", "w").write(DEMOSH + b["sh"])
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    r = sh("bash %s/demo.sh" % d, W)
    if r.returncode: print(b["id"], "BAD: the demo fails on the clean tree:", r.stdout[-1500:]); return False
    for f, o, n in b["edits"]:
        p = os.path.join(W, f); s = open(p).read()
        if s.count(o) != 1: print(b["id"], "BAD: %d matches in %s of %r" % (s.count(o), f, o)); sh("git checkout -q -- .", W); return False
        open(p, "w").write(s.replace(o, n))
    open(d + "/patch.diff", "w").write(sh("git diff", W).stdout)
    r = sh("bash /tmp/plant/build.sh", W)
    if r.returncode: print(b["id"], "BAD: does not build:", r.stdout[-2500:]); return False
    sh("bash /tmp/plant/test.sh /tmp/plant/out.json", W)
    o = json.load(open("/tmp/plant/out.json"))
    ps = set(o.get("passed", []))
    if not ps: print(list(o)[:5], json.dumps(o)[:300])
    miss = STABLE - ps
    if miss: print(b["id"], "BAD: tests fail:", sorted(miss)[:5]); return False
    r = sh("bash %s/demo.sh" % d, W)
    sh("git checkout -q -- .", W)
    if r.returncode == 0 or r.returncode == 2 and "error" in r.stdout and "could not compile" in r.stdout: print(b["id"], "BAD: the demo does not show it:", r.returncode, r.stdout[-800:]); return False
    print(b["id"], "kept; demo says:", r.stdout.strip().split("\n")[-1][:200]); return True
def catch(i):
    d = os.path.join(H, "seeded", i); p = json.load(open(d + "/meta.json"))["property"]
    a = sh("git apply %s/patch.diff" % d, "/repo")
    if a.returncode: print(i, "does not apply:", a.stdout); return
    try:
        t = time.time(); r = sh("python3 check.py run %s" % p, H)
    finally: sh("git checkout -q -- .", "/repo")
    v = [l for l in r.stdout.split("\n") if "VIOLATION" in l]
    print("%s [%s] exit %d %s (%.0f s)" % (i, p, r.returncode, v[-1] if v else "MISSED", time.time() - t))
    print("\n".join("    " + l[:220] for l in r.stdout.split("\n")[:14] if l.strip()))
    sys.stdout.flush()
if sys.argv[1] == "make":
    copy()
    for s in sys.argv[2:]:
        for b in runpy.run_path(s)["BUGS"]:
            if not make(b): shutil.rmtree(os.path.join(H, "seeded", b["id"]), ignore_errors=True)
            sys.stdout.flush()
else:
    for i in sys.argv[2:]: catch(i)
