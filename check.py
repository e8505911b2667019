#!/usr/bin/env python3
"""check.py run ID [quick|thorough]     decide one property on /repo's current tree
   check.py replay FILE                 run the recorded failing input again
   check.py all [quick|thorough]        every property, one after another
   check.py setup                       see that the tools this needs are here"""
import fnmatch, glob, json, os, re, shutil, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vx import gen, verify
from vx.props import PROPS, MODS, CRATES, CONTRACTS, BASE_ASSUME

REPO = os.environ.get("VERIF_REPO", "/repo")
BAT = os.path.join(HERE, "battery")
TGT = os.path.join(BAT, "target")

def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None); e.pop("CARGO_TARGET_DIR", None)
    return e

# ---------------------------------------------------------------- the battery
def build_battery(bins, cli):
    """-> (ok, log)"""
    cmd = ["cargo", "build", "--offline", "--locked", "--release", "--target-dir", TGT] + sum([["--bin", b] for b in bins], [])
    p = subprocess.run(cmd, cwd=BAT, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: return False, p.stdout
    if cli:
        e = env(); e["CARGO_PROFILE_RELEASE_OPT_LEVEL"] = "2"; e["CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS"] = "true"
        q = subprocess.run(["cargo", "build", "--offline", "--locked", "--release", "-p", "volaris-cli", "--manifest-path", REPO + "/Cargo.toml", "--target-dir", TGT],
                           env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if q.returncode: return False, q.stdout
    return True, p.stdout

def run_battery(b, prop, tier, seed, scratch, only=None, timeout=700):
    out = os.path.join(scratch, "report-%s.json" % b)
    sd = os.path.join(scratch, "s-" + b); os.makedirs(sd, exist_ok=True)
    cmd = [os.path.join(TGT, "release", b), prop, "--seed", str(seed), "--tier", tier, "--out", out, "--scratch", sd]
    cli = os.path.join(TGT, "release", "volaris-cli")
    if os.path.exists(cli): cmd += ["--cli", cli]
    if only: cmd += ["--only", only]
    e = env(); e["TMPDIR"] = sd; e["HOME"] = sd
    try:
        p = subprocess.run(cmd, cwd=sd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        rc, txt = p.returncode, p.stdout[-2000:]
    except subprocess.TimeoutExpired:
        rc, txt = None, "time limit"
    rep = None
    try: rep = json.load(open(out))
    except (OSError, ValueError): pass
    return rc, rep, txt

# ---------------------------------------------------------------- the proof
def bodies_for(C, pats):
    return [k for k in C.fns if not C.fns[k].trusted and any(fnmatch.fnmatch(k, p) for p in pats)]

def prove(prop, work, vac, threads):
    P = PROPS[prop]
    C = gen.Contracts([os.path.join(HERE, "contracts", n + ".vc") for n in P.get("contracts", CONTRACTS)])
    cr = gen.load_repo(REPO, P.get("crates", CRATES))
    b = bodies_for(C, P["fns"])
    o = verify.verify(REPO, cr, C, b, os.path.join(work, "vac.rs" if vac else "proof.rs"), vacuity=vac, mods=MODS + P.get("mods", []), threads=threads, timeout=420)
    o.bodies = b
    o.C = C
    return o

def vacuous(o):
    """functions whose contract admits nothing: assert(false) at the end was accepted"""
    if o.crash or o.run is None: return None
    hit = set()
    for f in o.failed + o.rlimited:
        if f["fn"] and any("assert(false)" in t for t in f["text"]): hit.add(f["fn"])
    for f in o.rlimited:                    # the solver gave up on it: the absurd end was not accepted either
        if f["fn"]: hit.add(f["fn"])
    return [k for k in o.bodies if k not in hit and k not in o.lost and not o.C.fns[k].novac]

def scan_trust(path):
    """what the generated file takes on trust"""
    out = {"external_body": [], "assume": 0, "axioms": []}
    if not os.path.exists(path): return out
    L = open(path, encoding="utf-8").read().split("\n")
    for i, l in enumerate(L):
        s = l.split("//")[0]
        if re.search(r"\bassume\s*\(", s) : out["assume"] += 1
        if "admit()" in s: out["assume"] += 1
        if "external_body" in s or "verifier::external" in s:
            for j in range(i, min(i + 4, len(L))):
                m = re.search(r"\b(fn|struct|enum|trait)\s+(\w+)", L[j])
                if m: out["external_body"].append(m.group(2)); break
    return out

def relied_on(path, o):
    """external names the proven bodies mention: (models of dependencies, functions of the repository proved elsewhere)"""
    if not os.path.exists(path) or not getattr(o, "g", None): return [], []
    L = open(path, encoding="utf-8").read().split("\n")
    used = set()
    for a, b, k, body in o.g.map:
        if body: used |= set(re.findall(r"[A-Za-z_]\w*", "\n".join(L[a - 1:b])))
    own = {k.split("::")[-1].split("#")[-1]: k for a, b, k, body in o.g.map if not body}
    ext = set(scan_trust(path)["external_body"]) & used
    return sorted("model of " + n for n in ext if n not in own), sorted(own[n] for n in ext if n in own)

# ---------------------------------------------------------------- known findings
def known():
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p, encoding="utf-8"):
            l = l.rstrip("\n")
            m = re.match(r"finding: property=(\S+) test=(\S+) input=(.*?) :: (.*)$", l)
            if m: out.append(m.groups())
    return out

def run(prop, tier):
    t0 = time.time()
    P = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    ev = os.path.join(HERE, "evidence", prop + ".json")
    if os.path.exists(ev): os.unlink(ev)
    work = tempfile.mkdtemp(prefix="verif-" + prop + "-")
    try:
        return decide(prop, P, tier, seed, work, ev, t0)
    finally:
        subprocess.run(["chmod", "-R", "u+rwx", work], stderr=subprocess.DEVNULL)
        shutil.rmtree(work, ignore_errors=True)

def decide(prop, P, tier, seed, work, ev, t0):
    res = {}
    def bg(name, f, *a):
        def g():
            try: res[name] = f(*a)
            except Exception as e: res[name] = e
        t = threading.Thread(target=g); t.start(); return t
    tb = bg("build", build_battery, P["battery"], "cli" in P["battery"]) if P["battery"] else None
    has_proof = bool(P["fns"])
    tp = bg("proof", prove, prop, work, False, 5) if has_proof else None
    tv = bg("vac", prove, prop, work, True, 3) if has_proof else None
    # the battery starts as soon as it is built
    reps, blog = [], ""
    battery_ok = False
    if tb:
        tb.join(); r = res["build"]
        if isinstance(r, Exception): blog = str(r)
        else: battery_ok, blog = r
    if battery_ok:
        ts = [bg("bat-" + b, run_battery, b, prop, tier, seed, work) for b in P["battery"]]
        for t in ts: t.join()
        for b in P["battery"]:
            r = res["bat-" + b]
            if isinstance(r, Exception): blog += "\n" + str(r); continue
            reps.append((b,) + r)
    if tp: tp.join(); tv.join()

    # -- verdict of the proof
    proof = res.get("proof") if has_proof else None
    st = {"state": "none", "failed": [], "why": []}
    if has_proof:
        if isinstance(proof, Exception):
            st["state"] = "not redone"; st["why"].append("%s: %s" % (type(proof).__name__, proof))
        else:
            lost = {k: v for k, v in proof.lost.items() if k in proof.bodies}
            decl = {k: v for k, v in proof.lost.items() if k not in proof.bodies}
            notes = {k: v for k, v in proof.g.notes.items() if k in proof.bodies}
            for k, v in list(lost.items()) + list(decl.items()): st["why"].append("%s: %s" % (k, v))
            for k, v in notes.items(): st["why"].append("%s: %s" % (k, "; ".join(v)))
            if proof.crash: st["why"].append(proof.crash)
            real = [f for f in proof.failed if f["fn"] and f["fn"] not in notes and f["fn"] not in lost]
            rest = [f for f in proof.failed if f not in real]
            for f in rest: st["why"].append("%s: %s (its annotations no longer all apply)" % (f["fn"] or "a lemma", f["message"]))
            for f in proof.rlimited: st["why"].append("%s: the solver gave up: %s" % (f["fn"], f["message"]))
            if real: st["state"] = "failed"; st["failed"] = real
            elif proof.crash or lost or decl or rest or proof.rlimited: st["state"] = "not redone"
            else: st["state"] = "accepted"
            if proof.lost and st["state"] == "failed" and all(f["fn"] is None for f in real): st["state"] = "not redone"
    vac = res.get("vac") if has_proof else None
    vlist = None
    if vac is not None and not isinstance(vac, Exception):
        vlist = vacuous(vac)
        if vlist and st["state"] == "accepted":
            st["state"] = "not redone"; st["why"].append("no run of these reaches their end, their contracts say nothing: " + ", ".join(vlist))

    # -- verdict of the battery
    fails, evals, distinct, samples, notes2 = [], 0, 0, [], []
    counts = {}
    for b, rc, rep, txt in reps:
        if rep is None: notes2.append("battery %s gave no report (%s): %s" % (b, rc, txt[-300:])); continue
        if rep["crashed"]: notes2.append("battery %s stopped: %s" % (b, rep["crashed"]))
        evals += sum(rep["counts"].values()); distinct += rep["distinct"]
        for k, v in rep["counts"].items(): counts[b + "/" + k] = v
        samples += rep["samples"][:6]
        for f in rep["failures"]: fails.append(dict(f, bin=b))
    if P["battery"] and not battery_ok: notes2.append("the battery did not build: " + blog[-600:])
    crashed = [r for r in reps if r[2] is None or r[2]["crashed"]]
    listed, new = [], []
    for f in fails:
        k = [x for x in known() if x[0] == prop and x[1] == f["test"] and x[2] in f["input"]]
        if k: listed.append(k[0])
        else: new.append(f)
    for k in sorted(set(listed)): print("KNOWN-FINDING: property=%s %s" % (prop, k[3]))

    # a battery that cannot finish (the code under test aborts or hangs) is a failure of its own
    if not new and crashed:
        for b, rc, rep, txt in crashed:
            why = rep["crashed"] if rep else ("did not finish within its time" if rc is None else "ended with status %s" % rc)
            confirm = run_battery(b, prop, tier, seed, work, timeout=300) if rc is not None else (rc, None, "")
            again = confirm[1] is None or confirm[1]["crashed"]
            if rc is not None and again and (rep is None):
                new.append({"test": "*", "input": "the whole battery %s, seed %d" % (b, seed), "detail": "the process under test %s: %s" % (why, txt[-500:]), "bin": b})
            else: notes2.append("battery %s: %s" % (b, why))

    rfile = os.path.join(HERE, "build", "replay-%s.json" % prop)
    if os.path.exists(rfile): os.unlink(rfile)
    viol = None
    if new:
        viol = ""
        doc = {"property": prop, "tier": tier, "seed": seed, "failures": new,
               "failed_obligations": [{k: f[k] for k in ("fn", "message", "loc", "text")} for f in st["failed"]], "replay": "python3 /verif/check.py replay " + rfile}
    elif st["state"] == "failed":
        viol = " no-failing-input-found"
        doc = {"property": prop, "tier": tier, "seed": seed, "failures": [], "failed_obligations": [{k: f[k] for k in ("fn", "message", "loc", "text")} for f in st["failed"]],
               "verifier_output": [f["rendered"] for f in st["failed"]], "battery": {"evaluations": evals}}
    if viol is not None:
        with open(rfile, "w") as f: json.dump(doc, f, indent=1, default=str)

    # -- evidence
    cov, assume = {}, list(BASE_ASSUME) + list(P.get("assume", []))
    if has_proof and not isinstance(proof, Exception):
        tr = scan_trust(os.path.join(work, "proof.rs"))
        v = getattr(proof, "verified", 0) or 0
        stubs, callees = relied_on(os.path.join(work, "proof.rs"), proof)
        bad = sorted(set(f["fn"] or "a lemma" for f in proof.failed + proof.rlimited))
        smt, tot = verify.smt_times(proof.run) if proof.run else (None, None)
        cov.update({
            "obligations": v + len(bad), "discharged": v, "checker_cmd": " ".join(proof.run.cmd) if proof.run else "not run",
            "trusted_base": ["rustc and Verus (verus %s) with Z3" % "0.2026.09.13", "the extraction vx/ (rewrites listed in DESIGN.md)"] + stubs,
            "callee_contracts_assumed_here": callees,
            "functions_under_contract": [k for k in proof.bodies if k not in proof.lost], "assume_statements_in_generated_file": tr["assume"],
            "solver_ms": smt, "verifier_ms": tot, "verifier_wall_s": round(proof.run.wall, 1) if proof.run else None,
            "proof_state": st["state"], "proof_not_redone_because": st["why"][:20], "failed_obligations": ["%s: %s at %s" % (f["fn"], f["message"], f["loc"]) for f in st["failed"]],
            "vacuity": {"functions_probed": len(vac.bodies) if vac is not None and not isinstance(vac, Exception) else 0, "vacuous": vlist},
        })
    elif has_proof: cov.update({"obligations": 0, "discharged": 0, "proof_state": st["state"], "proof_not_redone_because": st["why"]})
    cov.update({"evaluations": evals, "distinct_nontrivial": distinct, "rule": "bounded stand-in, never counted as proved: " + P["bounded"], "samples": samples[:12], "cases_per_test": counts})
    if P.get("beyond"): cov["decided_by_the_bounded_part_only"] = P["beyond"]
    if notes2: cov["notes"] = notes2
    level = P.get("level", "proof")
    if level == "proof" and st["state"] == "not redone": level = "other"
    if level == "other": cov["explanation"] = "the proof could not be redone on this tree, so the bounded battery decided: " + "; ".join(st["why"])[:1500] if st["state"] == "not redone" else P["bounded"]
    doc = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assume, "wall_s": round(time.time() - t0, 1), "violations": len(new) + (1 if viol == " no-failing-input-found" else 0)}
    with open(ev, "w") as f: json.dump(doc, f, indent=1, default=str)

    if has_proof: print("%s: proof %s (%s of %s obligations), %d bounded cases, %.0f s" % (prop, st["state"], cov.get("discharged"), cov.get("obligations"), evals, time.time() - t0))
    else: print("%s: %d bounded cases, %.0f s" % (prop, evals, time.time() - t0))
    for w in st["why"][:12]: print("  proof: " + w.split("\n")[0][:300])
    for n in notes2: print("  " + n.split("\n")[0][:300])
    for f in st["failed"][:8]: print("  obligation: %s: %s at %s: %s" % (f["fn"], f["message"], f["loc"], (f["text"] or [""])[0][:160]))
    for f in new[:6]: print("  input: [%s] %s -> %s" % (f["test"], f["input"][:300], f["detail"][:300]))
    if viol is not None:
        print("VIOLATION property=%s replay=%s%s" % (prop, rfile, viol)); return 1
    return 0

def replay(path):
    d = json.load(open(path))
    if not d["failures"]:
        print("no failing input was found; the obligations that failed:")
        for f in d["failed_obligations"]: print("  %s: %s at %s" % (f["fn"], f["message"], f["loc"]))
        for t in d.get("verifier_output", []): print(t)
        return 1
    P = PROPS[d["property"]]
    ok, log = build_battery(P["battery"], "cli" in P["battery"])
    if not ok: print(log); return 2
    work = tempfile.mkdtemp(prefix="verif-replay-")
    bad = 0
    try:
        for b, t in sorted(set((f["bin"], f["test"]) for f in d["failures"])):
            rc, rep, txt = run_battery(b, d["property"], d["tier"], d["seed"], work, only=None if t == "*" else t)
            if rep is None: print(b, t, "no report:", txt); bad += 1; continue
            for f in rep["failures"]: print("[%s] %s -> %s" % (f["test"], f["input"], f["detail"])); bad += 1
    finally: shutil.rmtree(work, ignore_errors=True)
    return 1 if bad else 0

def main():
    a = sys.argv[1:]
    tier = (a[2] if len(a) > 2 else None) or os.environ.get("VERIF_TIER") or "quick"
    if a[0] == "run": return run(a[1], tier)
    if a[0] == "replay": return replay(a[1])
    if a[0] == "all":
        bad = 0
        for p in sorted(PROPS): bad |= run(p, a[1] if len(a) > 1 else "quick"); sys.stdout.flush()
        return bad
    if a[0] == "setup":
        for t in ("verus", "cargo"):
            if not shutil.which(t): print("missing:", t); return 1
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True); print("ready"); return 0
if __name__ == "__main__": sys.exit(main())
