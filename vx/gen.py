"""Contracts + /repo's source  ->  one Verus file."""
import os, re
from .lex import lex, Tok, mk, text, flat, match_close, match_angle, split_commas, LexError
from .items import Crate
from . import rules, chains

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def expand_use(t):
    """use tree -> single imports"""
    for i, x in enumerate(t):
        if x.s == "{":
            e = match_close(t, i)
            out = []
            for part in split_commas(t[i + 1:e]):
                if not part: continue
                if part[0].s == "self":
                    out += expand_use(t[:i - 1] + part[1:])
                else: out += expand_use(t[:i] + part)
            return out
    return [t]

class Contract:
    def __init__(self, key):
        self.key = key
        self.params = None; self.ret = "r"; self.spec = ""; self.loops = {}; self.lbegin = {}; self.lend = {}
        self.start = ""; self.end = ""; self.hints = []; self.rw = []; self.attrs = []; self.nloops = None
        self.sig = None; self.trusted = False; self.lift = None; self.vis = "pub "; self.sigrw = []; self.lbefore = {}; self.lafter = {}
        self.loopattr = {}; self.novac = False; self.world = False; self.mutlets = False; self.chains = False; self.free = False; self.needs = []; self.forbids = []; self.texts = set()

class Contracts:
    """contracts/*.vc"""
    def __init__(self, files):
        self.fns, self.mods, self.types, self.uses, self.traits = {}, {}, {}, {}, {}
        self.dropuse = set(); self.bcast = {}; self.world = []
        for f in files: self.load(f)

    def load(self, path):
        cur, sec = None, None
        buf = []
        def flush():
            nonlocal buf
            if sec: sec("\n".join(buf) + ("\n" if buf else ""))
            buf = []
        for line in open(path, encoding="utf-8"):
            line = line.rstrip("\n")
            if line.startswith("##"): continue
            if not line.startswith("@"):
                buf.append(line); continue
            flush(); sec = None
            d, _, rest = line[1:].partition(" ")
            rest = rest.strip()
            if d == "fn":
                cur = self.fns.setdefault(rest, Contract(rest))
            elif d == "params": cur.params = rest.split()
            elif d == "ret": cur.ret = rest
            elif d == "trusted": cur.trusted = rest or True
            elif d == "novac": cur.novac = True
            elif d == "world":
                cur.world = True; cur.mutlets = True
                self.world.append((cur.key, rest))
            elif d == "worldcall":
                for x in rest.split():
                    if x.startswith("."): rules.WORLD_METHODS.add(x[1:])
                    elif x.split("::") not in rules.WORLD_PATHS: rules.WORLD_PATHS.append(x.split("::"))
            elif d == "mutlets": cur.mutlets = True
            elif d == "chains": cur.chains = True
            elif d == "free": cur.free = True          # a trait's method, verified as a function (self -> self_)
            elif d == "texts": cur.texts |= set(rest.split())
            elif d == "needs": cur.needs.append((rules.pat(rest), rest))
            elif d == "forbids": cur.forbids.append((rules.pat(rest), rest))
            elif d == "attr": cur.attrs.append(rest)
            elif d == "loops": cur.nloops = int(rest)
            elif d == "vis": cur.vis = rest + " " if rest else ""
            elif d == "sig": cur.sig = rest
            elif d == "lift": cur.lift = rest          # KEY of the parent whose $e_body this is
            elif d == "rw":
                a, b = rest.split(" ==> ")
                cur.rw.append((rules.pat(a), rules.pat(b), rest))
            elif d == "rwbody": cur.rw.append(("body", rest))
            elif d == "sigrw":
                a, b = rest.split(" ==> ")
                cur.sigrw.append((rules.pat(a), rules.pat(b), rest))
            elif d == "spec":
                c = cur; sec = lambda s, c=c: setattr(c, "spec", c.spec + s)
            elif d == "start":
                c = cur; sec = lambda s, c=c: setattr(c, "start", c.start + s)
            elif d == "end":
                c = cur; sec = lambda s, c=c: setattr(c, "end", c.end + s)
            elif d == "loop":
                p = rest.split()
                n = int(p[0]); c = cur
                which = {"": c.loops, "begin": c.lbegin, "end": c.lend, "before": c.lbefore, "after": c.lafter, "attr": c.loopattr}[p[1] if len(p) > 1 else ""]
                sec = lambda s, w=which, n=n: w.__setitem__(n, w.get(n, "") + s)
            elif d in ("after", "before"):
                c = cur
                sec = lambda s, c=c, d=d, p=rest: c.hints.append((d, rules.pat(p), p, s))
            elif d == "mod":
                m = rest; sec = lambda s, m=m: self.mods.__setitem__(m, self.mods.get(m, "") + s)
            elif d == "uses":
                m = rest; sec = lambda s, m=m: self.uses.__setitem__(m, self.uses.get(m, "") + s)
            elif d == "type":
                m = rest; sec = lambda s, m=m: self.types.__setitem__(m, s)
            elif d == "trait":
                m = rest; sec = lambda s, m=m: self.traits.__setitem__(m, s)
            elif d == "bcast":
                m, _, x = rest.partition(" "); self.bcast[m] = x
            elif d == "dropuse": self.dropuse |= set(rest.split())
            elif d == "end_file":
                break
            else: raise Exception("%s: unknown directive @%s" % (path, d))
        flush()

CRATES = {"corecrypto": "crates/volaris-crypto/src/lib.rs", "tools": "crates/volaris-tools/src/lib.rs", "cli": "crates/volaris-cli/src/main.rs"}

def load_repo(repo, names):
    return {n: Crate(n, os.path.join(repo, CRATES[n])) for n in names}

class Lost(Exception):
    pass

ERR_ONLY = {"map_err", "ok_or_else", "unwrap_or_else", "with_context"}

def closures(t):
    """closures without a contract that yield more than an error"""
    out = []
    for i, x in enumerate(t):
        if x.k == "p" and x.s in ("|", "||") and i and (t[i - 1].s in ("(", ",", "=", "move", "{", "=>", "return") and (x.s == "||" or any(y.s == "|" for y in t[i + 1:i + 30]))):
            if x.s == "|" and i and t[i - 1].s not in ("(", "move", ",", "="): continue
            name = t[i - 2].s if t[i - 1].s == "(" and i > 1 else ""
            if name in ERR_ONLY: continue
            k = i + 1
            if x.s == "|":
                while k < len(t) and t[k].s != "|": k += 1
                k += 1
            if k < len(t) and (t[k].s in ("requires", "ensures") or t[k].k == "ghost"): continue
            if k < len(t) and t[k].s == "->" : continue
            out.append(name or "?")
            # the end of its parameters is not the start of another closure
    return out

class Gen:
    def __init__(self, repo, crates, contracts, bodies, stubs=None, preludes=("stubs.rs", "os.rs", "cli.rs"), vacuity=False, skip_fns=(), skip_uses=(), skip_types=(), mods=None):
        self.only = mods and set(mods)
        self.repo, self.crates, self.c = repo, crates, contracts
        self.bodies, self.vac = set(bodies), vacuity
        self.stubs = stubs
        self.preludes = preludes
        self.out, self.map = [], []         # lines; (start, end, fnkey, is_body)
        self.linesrc = {}
        self.lost, self.used, self.notes = {}, {}, {}
        self.caps = {}
        self.skip_fns, self.skip_uses, self.skip_types = set(skip_fns), set(skip_uses), set(skip_types)
        self.usemap = []
        self.typemap = []

    # -------------------------------------------------- helpers
    def emit(self, s):
        for l in s.split("\n"): self.out.append(l)

    def fn_src(self, key):
        return self.crates[key.split("::")[0]].fns.get(key)

    def prep_body(self, f, c, crate):
        """rewritten body tokens of function f under contract c"""
        t = [Tok(x.k, x.s, x.ln, x.nl) for x in f.body]
        t = rules.strip_attrs(t, self.crates[crate].features)
        if c.free or (f.head is not None and f.head and f.head[0].s == "trait" if hasattr(f, "head") else False):
            t = [Tok(x.k, "self_", x.ln, x.nl) if x.k == "id" and x.s == "self" else x for x in t]
        if self.mutself(f):
            t = [Tok(x.k, "self_", x.ln, x.nl) if x.k == "id" and x.s == "self" else x for x in t]
            self.used.setdefault(c.key, []).append("mut self  ==>  let mut self_ = self")
        for p, txt in c.needs:
            if not rules.rewrite([Tok(x.k, x.s, x.ln, x.nl) for x in t], p, p)[1]: raise Lost("`%s` is gone, which the contract speaks about" % txt)
        hints_missing = []
        # ghost hints are placed on the source text, before anything is rewritten
        marks = []
        for where, p, ptxt, ghost in c.hints:
            i = 0; done = False
            while i < len(t):
                r = rules._match(p, 0, t, i, {}) if (p[0].k == "meta" or t[i].s == p[0].s) else None
                if r:
                    m = Tok("ghost", ghost, t[i].ln, 0)
                    pos = r[0] if where == "after" else i
                    t = t[:pos] + [m] + t[pos:]
                    done = True
                    break
                i += 1
            if not done: hints_missing.append(ptxt)
        for r in c.rw:
            if r[0] == "body": continue
            p, rep, name = r
            t, n, caps = rules.rewrite(t, p, rep)
            if n:
                self.used.setdefault(c.key, []).append(name)
                if caps: self.caps.setdefault(c.key, {}).update(caps)
                if "thread::spawn" in name and "e_b" in caps and any(x.s in ("?", "return") for x in caps["e_b"]): raise Lost("a thread's closure that returns early")
            elif "$e_body" in name:
                raise Lost("closure `%s` not found" % name.split(" ==> ")[0])
        for p, txt in c.forbids:
            if rules.rewrite([Tok(x.k, x.s, x.ln, x.nl) for x in t], p, p)[1]: raise Lost("`%s`: what it yields is not modelled" % txt)
        if c.texts:
            t, n = rules.text_eqs(t, c.texts)
            if n: self.used.setdefault(c.key, []).append("a == b  ==>  text_eq_(a, b), for texts")
        if c.chains:
            cx = chains.Ctx(f.ret if hasattr(f, "ret") else None)
            t = chains.chains(t, cx)
            for k in cx.used: self.used.setdefault(c.key, []).append(k)
        lv = [0]
        t = rules.loop_values(t, lv)
        if lv[0]: self.used.setdefault(c.key, []).append("loop { break E }  ==>  a variable holds E")
        t = rules.fors(t, [0])
        g = {}
        t = rules.apply_global(t, crate, g)
        if c.mutlets: t = rules.mutlets(t)
        if c.world: t = rules.world_calls(t); g["the world is passed along as `wd`"] = 1
        for k, v in g.items(): self.used.setdefault(c.key, []).append(k)
        if hints_missing: self.notes.setdefault(c.key, []).append("hint anchors not found: " + "; ".join(hints_missing))
        blind = closures(t)
        if blind and not c.lift: self.notes.setdefault(c.key, []).append("closures whose result the verifier does not see: " + ", ".join(blind))
        # name every loop, put the invariants in
        t, n = self.loops(t, c)
        if c.nloops is not None and n != c.nloops: raise Lost("expected %d loops, found %d" % (c.nloops, n))
        need = max(list(c.loops) + [-1]) + 1
        if n < need or (n and c.nloops is None and n != need): raise Lost("expected %d loops, found %d" % (need, n))
        return t

    def mutself(self, f):
        return bool(f.params) and flat(f.params[0]) == "mut self"

    def rename(self, f, c, s):
        """contract text with its parameter names replaced by the source's"""
        if not c.params or not s: return s
        src = []
        for p in f.params:
            k = next((i for i, x in enumerate(p) if x.s == ":"), len(p))
            ids = [x.s for x in p[:k] if x.k == "id" and x.s not in ("mut", "ref")]
            src.append(ids[-1] if ids else "_")
        if len(src) != len(c.params): raise Lost("parameters changed")
        for a, b in zip(c.params, src):
            if a != b: s = re.sub(r"\b%s\b" % re.escape(a), b, s)
        return s

    def loops(self, t, c):
        cnt = [0]
        f = self._f
        def go(t):
            out, i = [], 0
            while i < len(t):
                x = t[i]
                if x.k == "id" and x.s in ("while", "loop"):
                    k = i + 1
                    while t[k].s != "{": k = rules._tt_end(t, k)
                    e = match_close(t, k)
                    n = cnt[0]; cnt[0] += 1
                    body = go(t[k + 1:e])
                    G = lambda s: [Tok("ghost", self.rename(f, c, s), x.ln, 0)] if s else []
                    vac = [Tok("ghost", "assert(false); // vacuity: loop %d" % n, x.ln, 0)] if self.vac and self.isbody else []
                    out += G(c.lbefore.get(n)) + G(c.loopattr.get(n)) + t[i:k] + G(c.loops.get(n)) + [t[k]] + vac + G(c.lbegin.get(n)) + body + G(c.lend.get(n)) + [t[e]] + G(c.lafter.get(n))
                    i = e + 1
                else:
                    out.append(x); i += 1
            return out
        return go(t), cnt[0]

    def sig(self, f, c, crate):
        if c.sig is not None: return c.sig
        def tr(t):
            t = [Tok(x.k, x.s, x.ln, 0) for x in t]
            for p, rep, name in c.sigrw:
                t, n, _ = rules.rewrite(t, p, rep)
                if n: self.used.setdefault(c.key, []).append(name)
            g = {}
            t = rules.apply_global(t, crate, g)
            for k in g: self.used.setdefault(c.key, []).append(k)
            return flat(t)
        ps = [tr(p) for p in f.params]
        if self.mutself(f): ps[0] = "self"
        if c.world: ps.insert(1 if f.params and f.params[0] and f.params[0][-1].s == "self" else 0, "wd: &mut crate::stubs::fs::World")
        s = "fn %s%s(%s)" % (f.name, tr(f.generics), ", ".join(ps))
        if f.ret: s += " -> (%s: %s)" % (self.rename(f, c, c.ret), tr(f.ret))
        if f.where: s += " " + tr(f.where).rstrip(" ,")
        return s

    def emit_fn(self, key, trait_impl=False, indent=""):
        c = self.c.fns[key]
        f = self.fn_src(key)
        crate = key.split("::")[0]
        self.isbody = body = key in self.bodies
        self._f = f
        toks, err = None, None
        if body:
            try:
                toks = self.prep_body(f, c, crate)
            except (Lost, LexError, IndexError, StopIteration) as e:
                self.lost[key] = str(e) or type(e).__name__
                self.bodies.discard(key); self.isbody = body = False
        try:
            spec = self.rename(f, c, c.spec)
            sg = self.sig(f, c, crate)
        except (Lost, LexError, IndexError) as e:
            self.lost[key] = str(e)
            if trait_impl: raise
            return
        start = len(self.out) + 1
        for a in c.attrs: self.emit(a)
        if body and c.loops: self.emit("#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]")
        if body and not self.vac and not any("rlimit" in a for a in c.attrs): self.emit("#[verifier::rlimit(60)]")
        if not body: self.emit("#[verifier::external_body]")
        self.emit(("" if trait_impl else c.vis) + sg)
        if spec.strip(): self.emit(spec.rstrip("\n"))
        if not body:
            self.emit("{ unimplemented!() }")
        else:
            self.emit("{")
            if self.mutself(f): self.emit("let mut self_ = self;")
            if c.start: self.emit(self.rename(f, c, c.start).rstrip("\n"))
            wrap = bool(c.end) or (self.vac and not c.novac)
            if wrap: self.emit("let r__ = {")
            # source lines
            base = None
            cur = ""
            for x in toks:
                if x.nl:
                    for _ in range(x.nl):
                        self.linesrc[len(self.out) + 1] = self.linesrc.get(len(self.out) + 1) or None
                        self.out.append(cur); cur = ""
                if x.k == "ghost":
                    if cur.strip(): self.out.append(cur); cur = ""
                    self.emit(self.rename(f, c, x.s).rstrip("\n"))
                    continue
                if not cur: self.linesrc[len(self.out) + 1] = (f.path, x.ln)
                cur += " " + x.s
            if cur: self.out.append(cur)
            if wrap:
                self.emit("};")
                if c.end: self.emit(self.rename(f, c, c.end).rstrip("\n"))
                if self.vac and not c.novac: self.emit("assert(false); // vacuity: end")
                self.emit("r__")
            self.emit("}")
        self.map.append((start, len(self.out), key, body))

    def emit_lift(self, key):
        """a closure body, lifted to a function"""
        c = self.c.fns[key]
        parent = c.lift
        caps = self.caps.get(parent)
        body = caps and key in self.bodies and "e_body" in caps
        start = len(self.out) + 1
        if key in self.bodies and not body:
            self.lost[key] = "closure not found in " + parent
            self.bodies.discard(key)
        crate = key.split("::")[0]
        toks = None
        if body:
            class F: pass
            f = F(); f.params = []; f.path = self.fn_src(parent).path; f.body = caps["e_body"]; f.name = key
            self._f = f
            self.isbody = True
            # closure parameter name
            try:
                toks = self.prep_body(f, c, crate)
            except (Lost, LexError, IndexError) as e:
                self.lost[key] = str(e); self.bodies.discard(key); body = False
        s = c.sig
        if caps:
            for m, v in caps.items():
                if not m.startswith("e_") and not m.startswith("b_"): s = re.sub(r"\$%s\b" % re.escape(m), flat(v), s)
        spec = c.spec
        for m, v in (caps or {}).items(): spec = re.sub(r"\$%s\b" % re.escape(m), flat(v), spec)
        if not caps: s = s.replace("$id_", "id_"); spec = spec.replace("$id_", "id_")
        for a in c.attrs: self.emit(a)
        if not body: self.emit("#[verifier::external_body]")
        self.emit("pub " + s)
        self.emit(spec.rstrip("\n"))
        if not body: self.emit("{ unimplemented!() }")
        else:
            self.emit("{")
            if c.start: self.emit(c.start)
            if self.vac and not c.novac: self.emit("let r__ = {")
            cur = ""
            for x in toks:
                if x.nl:
                    self.out.append(cur); cur = ""
                if x.k == "ghost":
                    if cur.strip(): self.out.append(cur); cur = ""
                    self.emit(x.s.rstrip("\n")); continue
                if not cur: self.linesrc[len(self.out) + 1] = (f.path, x.ln)
                cur += " " + x.s
            if cur: self.out.append(cur)
            if self.vac and not c.novac: self.emit("}; assert(false); // vacuity: end\n r__")
            self.emit("}")
        self.map.append((start, len(self.out), key, bool(body)))

    def emit_type(self, key, it):
        start = len(self.out) + 1
        crate = key.split("::")[0]
        if key in self.c.types:
            s = self.c.types[key]
            if s.strip() == "drop": return
            if not s.startswith("+"):
                self.emit(s.rstrip("\n")); self.typemap.append((start, len(self.out), key)); return
            extra = s[1:]
        else: extra = ""
        toks = [Tok(x.k, x.s, x.ln, x.nl) for x in it.toks]
        toks[0].nl = 0
        toks = rules.strip_attrs(toks, self.crates[crate].features)
        toks = rules.apply_global(toks, crate, {})
        der = []
        for a in it.attrs:
            f = flat(a)
            if f.startswith("derive"): der += [x.s for x in a if x.k == "id"][1:]
        keep = [d for d in der if d in ("Copy", "Clone", "PartialEq", "Eq")]
        if "noderive" in extra.split("\n")[0]:
            keep = []; extra = "\n".join(extra.split("\n")[1:])
        if "Clone" in keep and "Copy" not in keep: keep.remove("Clone")
        if "PartialEq" in keep and it.kind == "enum" and "String" not in flat(it.toks):
            extra += "\nimpl vstd::std_specs::cmp::PartialEqSpecImpl for %s { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &%s) -> bool { *self == *o } }" % (it.name, it.name)
        if "Debug" in der and it.kind == "enum" and toks[2].s != "<":
            extra += "\n#[verifier::external] impl core::fmt::Debug for %s { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }" % it.name
        if keep: self.emit("#[derive(%s)]" % ", ".join(keep))
        # make everything public
        if it.kind == "struct":
            b = next((i for i, x in enumerate(toks) if x.s == "{"), None)
            if b is not None:
                fields = split_commas(toks[b + 1:-1])
                o = toks[:b + 1]
                for fl in fields:
                    if fl and fl[0].s == "pub":
                        fl = fl[1:] if fl[1].s != "(" else fl[match_close(fl, 1) + 1:]
                    o += mk("pub", fl[0]) + fl + mk(",", fl[-1])
                toks = o + [toks[-1]]
        s = text(toks).strip()
        if it.kind == "type" and "dyn" in flat(it.toks):
            s = "#[verifier::external_body]\npub struct %s { x: u8 }" % it.name
        else: s = "pub " + s
        self.emit(s)
        if it.kind == "enum" and it.name == "HeaderVersion":
            vs = [flat(v) for v in split_commas(toks[next(i for i, x in enumerate(toks) if x.s == "{") + 1:-1])]
            self.emit("impl HeaderVersion { pub open spec fn ord(self) -> int { match self { %s } }" % ", ".join("HeaderVersion::%s => %d" % (v, i) for i, v in enumerate(vs)))
            for n, op in (("lt_", "<"), ("le_", "<="), ("gt_", ">"), ("ge_", ">=")):
                self.emit("#[verifier::external_body] pub fn %s(self, o: HeaderVersion) -> (r: bool) ensures r == (self.ord() %s o.ord()) { unimplemented!() }" % (n, op))
            self.emit("}")
        if extra.strip(): self.emit(extra.rstrip("\n"))
        self.typemap.append((start, len(self.out), key))

    def generate(self):
        self.emit("#![feature(allocator_api)]\n#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_assignments, non_snake_case, unused_parens, unreachable_code, unused_braces, non_camel_case_types, unused_must_use)]")
        self.emit("use vstd::prelude::*;\nverus! {\nglobal size_of usize == 8;")
        self.emit("pub mod stubs {\nuse vstd::prelude::*;")
        for p in self.preludes:
            t = open(os.path.join(VERIF, "prelude", p), encoding="utf-8").read().rstrip("\n")
            if "WORDLIST_LINES" in t: t = t.replace("WORDLIST_LINES", "%d" % self.wordlist())
            self.emit(t)
        self.emit("}")
        self.globs = [m for cr in self.crates.values() for m in cr.mods if "::" in m and self.inmods(m)]
        for n, cr in self.crates.items():
            self.gen_mod(cr, n)
        self.emit("} // verus!\nfn main() {}")
        return "\n".join(self.out) + "\n"

    def wordlist(self):
        """number of lines of the built-in list, as str::lines counts them"""
        try: t = open(os.path.join(self.repo, "crates/volaris-crypto/src/wordlist.lst"), encoding="utf-8", newline="").read()
        except (OSError, UnicodeDecodeError): return 0
        return len(t.split("\n")) - (1 if t.endswith("\n") or not t else 0)

    def inmods(self, m):
        return self.only is None or any(m == x or x.startswith(m + "::") for x in self.only)

    def gen_mod(self, cr, mod):
        if not self.inmods(mod): return
        name = mod.split("::")[-1]
        self.emit("pub mod %s {" % name)
        self.emit("use vstd::prelude::*; use crate::stubs::model::*; use crate::stubs::s::*;")
        for n in self.globs:
            if n != mod: self.emit("use crate::%s::*;" % n)
        self.emit(self.c.bcast.get(mod) or "broadcast use {crate::stubs::model::group_model, crate::stubs::aead::group_aead};")
        crate = mod.split("::")[0]
        for pub, u0 in cr.uses.get(mod, []):
            for u in expand_use(u0):
                fu = flat(u).replace(" ", "")
                if (mod, fu) in self.skip_uses or fu in self.c.dropuse: continue
                if self.nocontract(fu, mod, cr): continue
                t = rules.paths([Tok(x.k, x.s, x.ln, 0) for x in u], crate)
                self.usemap.append((len(self.out) + 1, len(self.out) + 1, (mod, fu)))
                self.emit(("pub " if pub else "") + "use " + flat(t) + ";")
        if mod in self.c.uses: self.emit(self.c.uses[mod])
        for k, it in cr.consts.items():
            if it.mod == mod and it.kind == "const" and it.name != "_" and k not in self.skip_types and self.c.types.get(k, "").strip() != "drop":
                st = len(self.out) + 1
                if k in self.c.types: self.emit(self.c.types[k])
                else:
                    t = rules.apply_global([Tok(x.k, x.s, x.ln, 0) for x in it.toks], crate, {})
                    self.emit("pub " + flat(t))
                self.typemap.append((st, len(self.out), k))
        for k, it in cr.types.items():
            if it.mod != mod or k in self.skip_types: continue
            if it.kind == "trait":
                if k in self.c.traits:
                    st = len(self.out) + 1
                    self.emit(self.c.traits[k]); self.typemap.append((st, len(self.out), k))
                continue
            self.emit_type(k, it)
        if mod in self.c.mods: self.emit(self.c.mods[mod].rstrip("\n"))
        # functions
        done_heads = set()
        for key, f in cr.fns.items():
            if f.mod != mod or key in self.skip_fns: continue
            if key not in self.c.fns: continue
            if f.head is None:
                self.emit_fn(key)
            elif self.c.fns[key].free: self.emit_fn(key)
            elif f.trait is None:
                if f.head[0].s == "trait":
                    self.emit_fn(key); continue
                self.emit(self.head(f, crate) + " {")
                self.emit_fn(key)
                self.emit("}")
            else:
                if f.owner in done_heads: continue
                done_heads.add(f.owner)
                self.emit(self.head(f, crate) + " {")
                self.emit(self.c.mods.get("impl " + f.owner, "").rstrip("\n"))
                for k2, f2 in cr.fns.items():
                    if f2.owner == f.owner and k2 in self.c.fns and not self.c.fns[k2].free: self.emit_fn(k2, trait_impl=True)
                self.emit("}")
        for key, c in self.c.fns.items():
            if c.lift and key.split("#")[0].rsplit("::", 1)[0] == mod and key not in self.skip_fns:
                self.emit_lift(key)
            elif c.lift and self.fn_src(c.lift) is not None and self.fn_src(c.lift).mod == mod and key not in self.skip_fns and key.split("#")[0].rsplit("::", 1)[0] != mod:
                self.emit_lift(key)
        for m in cr.mods:
            if m.rsplit("::", 1)[0] == mod and "::" in m: self.gen_mod(cr, m)
        self.emit("}")

    def nocontract(self, fu, mod, cr):
        """an import of a function that has no contract"""
        p = fu.split("::")
        base = {"crate": [mod.split("::")[0]], "super": mod.split("::")[:-1], "self": mod.split("::")}.get(p[0])
        if base is None:
            base = [p[0]] if p[0] in self.crates else mod.split("::") + [p[0]]
        k = "::".join(base + p[1:])
        c = self.crates.get(k.split("::")[0])
        return c is not None and k in c.fns and k not in self.c.fns

    def head(self, f, crate):
        h = [Tok(x.k, x.s, x.ln, 0) for x in f.head]
        return flat(rules.apply_global(h, crate, {}))

    def missing(self):
        return [k for k in self.bodies if "#" not in k and self.fn_src(k) is None]
