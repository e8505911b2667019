"""run verus on a generated file and sort its diagnostics by function"""
import json, os, subprocess, sys, time

VERUS = os.environ.get("VERUS", "verus")

class Result:
    pass

def verus(path, timeout=600, rlimit=None, threads=8, extra=()):
    cmd = [VERUS, path, "--crate-type=lib", "--output-json", "--time", "--num-threads", str(threads), "--multiple-errors", "20"]
    if rlimit: cmd += ["--rlimit", str(rlimit)]
    cmd += list(extra) + ["--", "--error-format=json"]
    r = Result()
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True)
    except subprocess.TimeoutExpired:
        r.timeout = True; r.wall = time.time() - t0; r.diags = []; r.compiled = False; r.json = {}; r.cmd = cmd; r.raw = ""; r.rc = -1
        return r
    r.timeout = False
    r.rc = p.returncode
    r.cmd = cmd
    r.wall = time.time() - t0
    r.path = path
    r.raw = p.stderr
    r.diags = []
    for l in p.stderr.splitlines():
        if l.startswith("{"):
            try: r.diags.append(json.loads(l))
            except ValueError: pass
    i = p.stdout.find("{")
    try: r.json = json.loads(p.stdout[i:])
    except ValueError: r.json = {}
    vr = r.json.get("verification-results", {})
    r.compiled = bool(vr) and not vr.get("encountered-vir-error") and "verified" in vr and not (vr.get("encountered-error") and not vr.get("errors"))
    r.verified, r.errors = vr.get("verified", 0), vr.get("errors", 0)
    return r

def errors(r):
    return [d for d in r.diags if d.get("level") == "error" and not d.get("message", "").startswith("aborting due to")]

def spans(d, path=None):
    out = [s for s in d.get("spans", [])]
    for c in d.get("children", []): out += c.get("spans", [])
    out = [s for s in out if path is None or os.path.basename(s.get("file_name", "")) == os.path.basename(path)]
    out.sort(key=lambda s: not s.get("is_primary"))
    return out
