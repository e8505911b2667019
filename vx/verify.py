"""generate + verify, dropping what the verifier cannot take until the rest compiles"""
import os, re
from . import gen, run

OBLIG = re.compile(r"postcondition not|precondition not|assertion failed|assert_by|invariant not satisfied|possible arithmetic|possible division|decreases|rlimit|Resource limit|possible bit shift|index out of|unable to prove|cannot show|failed this|loop ensures|recommendation|could not prove|while loop: Resource|nonlinear")

class Outcome:
    pass

def _at(g, line):
    for s, e, key, body in g.map:
        if s <= line <= e: return ("fn", key, body)
    for s, e, key in g.usemap:
        if s <= line <= e: return ("use", key, False)
    for s, e, key in g.typemap:
        if s <= line <= e: return ("type", key, False)
    return None

def verify(repo, crates, contracts, bodies, out, preludes=("stubs.rs", "os.rs", "cli.rs"), vacuity=False, rlimit=None, timeout=300, threads=8, log=None, max_iter=25, mods=None, extra=()):
    skip_fns, skip_uses, skip_types, lost = set(), set(), set(), {}
    bodies = set(bodies)
    o = Outcome()
    o.iters = 0
    o.lost = lost
    o.crash = None
    while True:
        o.iters += 1
        g = gen.Gen(repo, crates, contracts, set(bodies) - set(lost), preludes=preludes, vacuity=vacuity, skip_fns=skip_fns, skip_uses=skip_uses, skip_types=skip_types, mods=mods)
        try:
            text = g.generate()
        except Exception as e:
            o.crash = "generation failed: %s: %s" % (type(e).__name__, e); o.g = g; o.run = None
            o.failed = []; return o
        for k, v in g.lost.items(): lost.setdefault(k, v)
        for k in g.missing(): lost.setdefault(k, "function not found in the source")
        with open(out, "w") as f: f.write(text)
        r = run.verus(out, timeout=timeout, rlimit=rlimit, threads=threads, extra=extra)
        o.g, o.run = g, r
        if r.timeout:
            o.crash = "verifier timed out"; o.failed = []; return o
        if r.compiled: break
        prog = False
        msgs = []
        ds = [d for d in run.errors(r) if not OBLIG.search(d["message"])]
        for d in ds: msgs.append(d.get("rendered", d["message"]))
        for primary in (True, False):
            if prog: break                  # where an error is reported first; what else it mentions only if that leads nowhere
            for d in ds:
                hit = False
                for s in run.spans(d, out):
                    if primary and not s.get("is_primary"): continue
                    w = _at(g, s["line_start"])
                    if not w: continue
                    kind, key, body = w
                    if kind == "fn":
                        if body and key not in lost: lost[key] = "outside the verifier's reach: " + d["message"][:200]; prog = hit = True
                        elif not body and key not in skip_fns:
                            skip_fns.add(key); lost.setdefault(key, "declaration not usable: " + d["message"][:200]); prog = hit = True
                    elif kind == "use":
                        if key not in skip_uses: skip_uses.add(key); prog = hit = True
                    else:
                        if key not in skip_types: skip_types.add(key); lost.setdefault(key, "type not usable: " + d["message"][:200]); prog = hit = True
                    if hit: break
        if log: log("\n".join(msgs))
        if not prog or o.iters >= max_iter:
            o.crash = "does not compile: " + (msgs[0] if msgs else r.raw[-800:]); o.failed = []; return o
    o.failed = []
    o.rlimited = []
    for d in run.errors(r):
        keys = []
        loc = None
        lines = []
        for s in run.spans(d, out):
            w = _at(g, s["line_start"])
            if w and w[0] == "fn" and w[2] and w[1] not in keys: keys.append(w[1])
            if s["line_start"] in g.linesrc and g.linesrc[s["line_start"]]: loc = loc or g.linesrc[s["line_start"]]
            lines += [t["text"].strip() for t in s.get("text", [])][:1]
        rec = {"fn": keys[0] if keys else None, "message": d["message"], "loc": loc, "text": lines, "rendered": d.get("rendered", "")}
        (o.rlimited if "rlimit" in d["message"].lower() or "resource limit" in d["message"].lower() else o.failed).append(rec)
    o.verified = r.verified
    return o

def module_of(key, contracts, crates):
    c = contracts.fns[key]
    f = crates[key.split("::")[0]].fns.get(c.lift or key)
    return f.mod if f else key.rsplit("::", 1)[0]

def smt_times(r):
    t = (r.json or {}).get("times-ms", {})
    return t.get("smt", {}).get("total"), t.get("total")
