"""Iterator chains become `for` loops: `X.into_iter().filter(|f| C).map(|f| B).collect()` and the like.
The adapters and consumers handled are the ones listed in ADAPT and TERM; anything else is left alone."""
from .lex import lex, Tok, mk, match_close, match_angle, split_commas, flat, LexError
from .rules import KEYWORDS, _tt_end, _nn

SRC = ("into_iter", "iter")
ADAPT = ("filter", "map", "filter_map", "flat_map", "chain", "cloned", "copied")
TERM = ("collect", "try_for_each", "for_each", "any", "all", "count")

def segments(t, i):
    """postfix chain starting at i: (base_end, [(method, generics, args, end)]) or None"""
    if t[i].k == "id":
        if t[i].s in KEYWORDS: return None
        e = i + 1
        while e + 1 < len(t) and t[e].s == "::" and t[e + 1].k == "id": e += 2
        if e < len(t) and t[e].s == "(": e = match_close(t, e) + 1
    elif t[i].s in ("(", "["): e = match_close(t, i) + 1
    else: return None
    base, segs = e, []
    while e < len(t):
        if t[e].s == "." and e + 1 < len(t) and t[e + 1].k == "id":
            n, k, g = t[e + 1].s, e + 2, None
            if k < len(t) and t[k].s == "::":
                m = match_angle(t, k + 1); g = t[k + 2:m]; k = m + 1
            if k < len(t) and t[k].s == "(":
                m = match_close(t, k)
                segs.append((n, g, t[k + 1:m], m + 1)); e = m + 1
            else:
                segs.append((None, None, None, k)); e = k
        elif t[e].s == "." and e + 1 < len(t) and t[e + 1].k == "num": e += 2; segs.append((None, None, None, e))
        elif t[e].s in ("[", "("):
            e = match_close(t, e) + 1; segs.append((None, None, None, e))
        elif t[e].s == "?":
            e += 1; segs.append(("?", None, None, e))
        else: break
    return base, segs

def closure(a):
    """|p| body  ->  (p, body)"""
    a = list(a)
    if a and a[0].s == "move": a = a[1:]
    if a and all(x.k == "id" or x.s == "::" for x in a) and a[0].s not in KEYWORDS:     # a path: |x| path(x)
        return mk("arg__", a[0]), a + mk("(arg__)", a[-1])
    if not a or a[0].s != "|": raise LexError("not a closure: " + flat(a)[:60])
    k = 1
    while a[k].s != "|": k = _tt_end(a, k)
    return a[1:k], a[k + 1:]

def has(t, *names):
    return any(x.s in names and x.k != "str" for x in t)

class Ctx:
    def __init__(self, ret):
        self.n = 0; self.ret = ret; self.used = {}
        f = flat(ret) if ret else ""
        self.conv = f.startswith("Result") and "," not in f     # anyhow's: `?` converts the error

def chains(t, ctx):
    out, i = [], 0
    while i < len(t):
        x = t[i]
        r = None
        if not (i > 0 and t[i - 1].s in (".", "::")) and (x.k == "id" or x.s in ("(", "[")) and not (i > 0 and x.s in ("(", "[") and (t[i - 1].k in ("id", "num") and t[i - 1].s not in KEYWORDS or t[i - 1].s in (")", "]", "!", "?", ">"))):
            r = chain(t, i, ctx)
        if r is None:
            out.append(x); i += 1
        else:
            new, e = r
            if new and x.nl: new[0] = Tok(new[0].k, new[0].s, new[0].ln, x.nl)
            nl = sum(y.nl for y in t[i:e]) - sum(y.nl for y in new)
            if nl > 0 and e < len(t): t[e] = Tok(t[e].k, t[e].s, t[e].ln, t[e].nl + nl)
            out += new; i = e
    return out

def chain(t, i, ctx):
    r = segments(t, i)
    if not r: return None
    base, segs = r
    # source
    s = next((k for k, g in enumerate(segs) if g[0] in SRC or g[0] in ADAPT + TERM[1:5] and k == 0 and t[i].s == "("), None)
    if s is None: return None
    end_src = segs[s - 1][3] if s else base
    src = t[i:end_src]
    kind = segs[s][0]
    rest = segs[s + 1:] if kind in SRC else segs[s:]
    rng = False
    if kind not in SRC:
        if not (t[i].s == "(" and has(t[i + 1:base - 1], "..")): return None
        kind = "range"; src = t[i + 1:base - 1]
    st, k = [], 0
    while k < len(rest) and rest[k][0] in ADAPT: st.append(rest[k]); k += 1
    if k >= len(rest) or rest[k][0] not in TERM: return None
    term = rest[k]
    if not st and term[0] in ("collect", "count"): return None
    e = term[3]
    quest = e < len(t) and t[e].s == "?"
    like = t[i]
    M = lambda s: mk(s, like)
    ERR = "Err(e__) => { Err::<(), _>(e__)?; }" if quest and ctx.conv else "Err(e__) => { return Err(e__); }"
    ctx.n += 1
    N = ctx.n
    # consumers
    name = term[0]
    if name == "collect":
        g = flat(term[1] or [])
        res = g.startswith("Result") or (not g and ctx.ret and flat(ctx.ret).startswith("Result") and e >= len(t))
        if res and not (quest or e >= len(t)): raise LexError("collect into a Result that is not returned")
        if g and not (g.startswith("Vec") or g.startswith("Result < Vec")): raise LexError("collect into " + g)
        pre, post = "let mut out__%d = Vec::new();" % N, "Ok(out__%d)" % N if res else "out__%d" % N
        tail = (lambda it: M("match") + it + M("{ Ok(x__) => { out__%d.push(x__); } %s }" % (N, ERR))) if res else (lambda it: M("out__%d.push(" % N) + it + M(");"))
    elif name == "try_for_each":
        if not (quest or e >= len(t)): raise LexError("try_for_each whose result is kept")
        p, b = closure(term[2])
        if has(b, "return"): raise LexError("return in a closure")
        pre, post = "", "Ok(())"
        tail = lambda it: M("match {") + bind(p, it, M) + b + M("} { Ok(_) => {} %s }" % ERR)
    elif name == "for_each":
        p, b = closure(term[2])
        if has(b, "return", "?"): raise LexError("return in a closure")
        pre, post = "", "()"
        tail = lambda it: M("{") + bind(p, it, M) + b + M("}")
    elif name in ("any", "all"):
        p, b = closure(term[2])
        if has(b, "return", "?"): raise LexError("return in a closure")
        v = "false" if name == "any" else "true"
        pre, post = "let mut any__%d = %s;" % (N, v), "any__%d" % N
        tail = lambda it: M("if %s {" % ("" if name == "any" else "!")) + M("{") + bind(p, it, M) + _nn(b) + M("} { any__%d = %s; break; } }" % (N, "true" if name == "any" else "false"))
        tail = lambda it: M("let hit__%d = {" % N) + bind(p, it, M) + b + M("}; if %shit__%d { any__%d = %s; break; }" % ("" if name == "any" else "!", N, N, "true" if name == "any" else "false"))
    else:
        pre, post = "let mut out__%d: usize = 0;" % N, "out__%d" % N
        tail = lambda it: M("out__%d += 1;" % N)
    cnt = [0]
    extra = []       # chained arrays: they go through the stages after the chain
    def go(k, it):
        if k == len(st): return tail(it)
        n, g, a, _ = st[k]
        cnt[0] += 1
        Y = "y__%d_%d" % (N, cnt[0])
        if n in ("cloned", "copied"): return M("let %s = *" % Y) + it + M(";") + go(k + 1, M(Y)) if n == "copied" else M("let %s = " % Y) + it + M(".clone();") + go(k + 1, M(Y))
        if n == "chain":
            extra.append((k + 1, a)); return go(k + 1, it)
        p, b = closure(a)
        if has(b, "return"): raise LexError("return in a closure")
        if n == "filter":
            if has(b, "?"): raise LexError("? in a closure")
            return M("let %s = {" % Y) + bind(p, M("&") + it, M) + b + M("}; if %s {" % Y) + go(k + 1, it) + M("}")
        if n == "map":
            if has(b, "?"): raise LexError("? in a closure")
            return M("let %s = {" % Y) + bind(p, it, M) + b + M("};") + go(k + 1, M(Y))
        if n == "flat_map":
            if has(b, "?"): raise LexError("? in a closure")
            r0, ctx.ret = ctx.ret, None
            b = chains(b, ctx)
            ctx.ret = r0
            return M("for %s in ({" % Y) + bind(p, it, M) + b + M("}).into_iter() {") + go(k + 1, M(Y)) + M("}")
        if n == "filter_map":
            b = quest_continue(b)
            return M("let %s = {" % Y) + bind(p, it, M) + b + M("}; if let Some(%sv) = %s {" % (Y, Y)) + go(k + 1, M(Y + "v")) + M("}")
        raise LexError(n)
    X = "x__%d" % N
    body = go(0, M(X))
    if kind == "range": loop = M("for %s in" % X) + _nn(src) + M("{") + body + M("}")
    elif kind == "iter": loop = M("for %s in" % X) + _nn(src) + M(".iter() {") + body + M("}")
    else: loop = M("for %s in" % X) + _nn(src) + M(".into_iter() {") + body + M("}")
    more = []
    while extra:
        k, a = extra.pop(0)
        if a[0].s != "[": raise LexError("chain of " + flat(a))
        for item in split_commas(a[1:-1]):
            cnt[0] += 1
            more += M("{ let %sc%d = " % (X, cnt[0])) + _nn(item) + M(";") + go(k, M("%sc%d" % (X, cnt[0]))) + M("}")
    # nested chains inside
    inner = chains(loop, ctx) if False else loop
    if quest and ctx.conv and post.startswith("Ok("): post = post[3:-1]; e += 1
    new = M("({ " + pre) + inner + more + M(post + " })")
    ctx.used["iterator chain ending in %s()  ==>  loop" % name] = 1
    return new, e

def bind(p, it, M):
    if flat(p) == "_": return []
    # &x patterns
    if p and p[0].s == "&": return M("let") + _nn(p[1:]) + M("= *") + it + M(";")
    return M("let") + _nn(p) + M("=") + it + M(";")

def quest_continue(b):
    """E? in a closure returning an Option, inlined into a loop"""
    out, i = [], 0
    while i < len(b):
        x = b[i]
        if (x.k == "id" or x.s == "(") and not (i > 0 and b[i - 1].s in (".", "::")) and x.s not in KEYWORDS:
            r = segments(b, i)
            if r and any(s[0] == "?" for s in r[1]):
                q = next(s for s in r[1] if s[0] == "?")
                out += mk("(match", x) + b[i:q[3] - 1] + mk("{ Some(v__) => v__, None => { continue; } })", x)
                i = q[3]; continue
        if x.s == "?": raise LexError("? in a closure")
        out.append(x); i += 1
    return out
