#!/usr/bin/env python3
"""dev: generate + verify some functions, print diagnostics"""
import sys, os, fnmatch, argparse
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vx import gen, run, verify
ap = argparse.ArgumentParser()
ap.add_argument("pat", nargs="*"); ap.add_argument("-o", default="/tmp/v/out.rs"); ap.add_argument("--vac", action="store_true")
ap.add_argument("--crates", default="corecrypto"); ap.add_argument("--repo", default="/repo"); ap.add_argument("-1", dest="one", action="store_true")
ap.add_argument("--mods"); ap.add_argument("--also", default=""); ap.add_argument("--vc"); ap.add_argument("--only", action="store_true"); ap.add_argument("-v", action="store_true"); ap.add_argument("--pre", default="stubs.rs,os.rs,cli.rs")
a = ap.parse_args()
os.makedirs(os.path.dirname(a.o), exist_ok=True)
names = a.crates.split(",")
C = gen.Contracts([os.path.join(gen.VERIF, "contracts", n + ".vc") for n in (a.vc.split(",") if a.vc else names)])
cr = gen.load_repo(a.repo, names)
bodies = [k for k in C.fns if any(fnmatch.fnmatch(k, p) for p in a.pat) and not C.fns[k].trusted]
extra = []
if a.only:
    for m in sorted(set(verify.module_of(k, C, cr) for k in bodies) | set(x for x in a.also.split(",") if x)): extra += ["--verify-only-module", m]
o = verify.verify(a.repo, cr, C, bodies, a.o, preludes=a.pre.split(","), vacuity=a.vac, log=print if a.v else None, max_iter=1 if a.one else 25, mods=a.mods and a.mods.split(','), extra=extra)
print("iters", o.iters, "bodies", len(bodies), "lost", o.lost, "notes", o.g.notes)
if o.crash: print("CRASH", o.crash)
else:
    print("drop:", o.g.skip_uses, o.g.skip_types)
    for f in o.failed + o.rlimited: print(f["fn"], f["loc"], f["rendered"])
    print("verified", o.verified, "failed", len(o.failed), len(o.rlimited), "%.1fs" % o.run.wall)
    if a.vac: print("vac fns", )
