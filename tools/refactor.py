#!/usr/bin/env python3
"""refactor.py SPEC.py [ID...]   apply behaviour-preserving edits one by one to a scratch copy and report what the proof says
A spec defines REFS = [(id, property, [(file, old, new)...])]"""
import json, os, subprocess, sys, runpy, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/rf/repo"
os.environ["VERIF_REPO"] = W
sys.path.insert(0, H)
def sh(c, cwd=None): return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
os.makedirs("/tmp/rf/work", exist_ok=True)
if not os.path.exists(W): subprocess.check_call(["cp", "-a", "/repo", W])
sh("git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD && git checkout -q -- .", W)
import check
for i, prop, edits in runpy.run_path(sys.argv[1])["REFS"]:
    if sys.argv[2:] and i not in sys.argv[2:]: continue
    sh("git checkout -q -- .", W)
    ok = True
    for f, o, n in edits:
        p = os.path.join(W, f); s = open(p).read()
        if s.count(o) != 1: print(i, "BAD: %d matches in %s of %r" % (s.count(o), f, o[:80])); ok = False; break
        open(p, "w").write(s.replace(o, n))
    if not ok: continue
    r = sh("CARGO_NET_OFFLINE=true cargo check -q --offline --workspace", W)
    if r.returncode: print(i, "BAD: does not compile:", r.stdout[-1500:]); continue
    t = time.time()
    try: o = check.prove(prop, "/tmp/rf/work", False, 6)
    except Exception as e: print(i, prop, "EXC", e); continue
    lost = dict(o.lost); notes = {k: v for k, v in o.g.notes.items() if k in o.bodies}
    real = [f for f in o.failed if f["fn"] and f["fn"] not in notes and f["fn"] not in lost]
    st = "FAILED" if real and not (o.lost and all(f["fn"] is None for f in real)) else "not redone" if o.crash or lost or o.failed or o.rlimited else "accepted"
    print("%s %s %s (%.0f s)" % (i, prop, st, time.time() - t))
    for k, v in lost.items(): print("     lost", k, str(v)[:300].replace("\n", " "))
    for k, v in notes.items(): print("     note", k, v)
    if o.crash: print("     crash", o.crash[:600])
    for f in o.failed + o.rlimited: print("     ", f["fn"], f["message"], f["loc"], (f["text"] or [""])[0][:140])
    sys.stdout.flush()
sh("git checkout -q -- .", W)
