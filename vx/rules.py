"""Token rewriting.  Everything the extraction changes in the code under verification is in this file
(global rules) and in the @rw lines of contracts/*.vc (function rules)."""
from .lex import lex, Tok, mk, match_close, match_angle, OPEN, CLOSE, flat, LexError

# ---------------------------------------------------------------- patterns with metavariables
def pat(s):
    t = lex(s)
    out, i = [], 0
    while i < len(t):
        if t[i].s == "$" and i + 1 < len(t) and t[i + 1].k == "id":
            x = Tok("meta", t[i + 1].s, t[i].ln); out.append(x); i += 2
        else:
            out.append(t[i]); i += 1
    return out

KEYWORDS = set("let if else match return while for loop in mut ref move break continue as unsafe fn".split())

def _tt_end(t, i):
    """end (exclusive) of the token tree at i"""
    if t[i].k == "p" and t[i].s in OPEN: return match_close(t, i) + 1
    if t[i].k == "p" and t[i].s in CLOSE: return None
    return i + 1

def _match(p, pi, t, i, env):
    while pi < len(p):
        m = p[pi]
        if m.k != "meta":
            if i >= len(t) or t[i].s != m.s: return None
            i += 1; pi += 1; continue
        if i >= len(t): return None
        kind = m.s.split("_")[0]
        def bind(e):
            v = t[i:e]
            if m.s in env and flat(env[m.s]) != flat(v): return None
            n = dict(env); n[m.s] = v
            return n
        if kind == "id":
            if t[i].k != "id": return None
            env = bind(i + 1)
            if env is None: return None
            i += 1; pi += 1; continue
        if kind == "t":
            e = _tt_end(t, i)
            if e is None: return None
            env = bind(e)
            if env is None: return None
            i = e; pi += 1; continue
        if kind == "r":
            # a receiver: an identifier, call or group followed by postfix operators; shortest first
            if i > 0 and t[i - 1].s in (".", "::"): return None
            if t[i].k == "id":
                if t[i].s in KEYWORDS: return None
                e = i + 1
            elif t[i].s == "(": e = match_close(t, i) + 1
            else: return None
            while True:
                n = bind(e)
                if n is not None:
                    r = _match(p, pi + 1, t, e, n)
                    if r is not None: return r
                if e >= len(t): return None
                if t[e].s in (".", "::") and e + 1 < len(t) and t[e + 1].k in ("id", "num"): e += 2
                elif t[e].s == "::" and e + 1 < len(t) and t[e + 1].s == "<": e = match_angle(t, e + 1) + 1
                elif t[e].s in ("(", "["): e = match_close(t, e) + 1
                elif t[e].s == "?": e += 1
                else: return None
        if kind == "path":
            # longest chain  a.b.c / a::b / self.x, no calls; backtracks to shorter ones
            if t[i].k != "id": return None
            ends = [i + 1]
            e = i + 1
            while e + 1 < len(t) and t[e].s in (".", "::") and t[e + 1].k in ("id", "num"):
                e += 2; ends.append(e)
            for e in reversed(ends):
                n = bind(e)
                if n is None: continue
                r = _match(p, pi + 1, t, e, n)
                if r is not None: return r
            return None
        if kind in ("e", "b"):
            # shortest sequence of token trees (b: may be empty)
            e = i
            first = True
            while True:
                if not (first and kind == "e"):
                    n = bind(e)
                    if n is not None:
                        r = _match(p, pi + 1, t, e, n)
                        if r is not None: return r
                first = False
                if e >= len(t): return None
                if kind == "e" and t[e].s == ";": return None
                e2 = _tt_end(t, e)
                if e2 is None: return None
                e = e2
        raise LexError("bad metavariable " + m.s)
    return i, env

def subst(rep, env, like):
    out = []
    for x in rep:
        if x.k == "meta": out += env[x.s]
        else: out.append(Tok(x.k, x.s, like.ln, 0))
    if out and out[0].nl == 0 and like.nl:
        out[0] = Tok(out[0].k, out[0].s, out[0].ln, like.nl)
    return out

def rewrite(t, p, rep, once=False, inside=True):
    """replace every match of pattern p in t; returns (tokens, count, captures of the last match)"""
    out, i, n, caps = [], 0, 0, None
    p0 = p[0]
    while i < len(t):
        r = None
        if (p0.k == "meta" or t[i].s == p0.s) and not (once and n):
            r = _match(p, 0, t, i, {})
            # a path must not start in the middle of a longer chain
            if r is not None and p0.k == "meta" and p0.s.startswith("path") and i > 0 and t[i - 1].s in (".", "::"):
                r = None
        if r is None:
            out.append(t[i]); i += 1; continue
        e, env = r
        new = subst(rep, env, t[i])
        # keep the number of line breaks, so that lines still correspond
        nl = sum(x.nl for x in t[i:e]) - sum(x.nl for x in new)
        if nl > 0 and e < len(t): t[e] = Tok(t[e].k, t[e].s, t[e].ln, t[e].nl + nl)
        out += new
        n += 1; caps = env
        i = e if e > i else i + 1
    return out, n, caps

# ---------------------------------------------------------------- global rules
PATHS = [  # longest first
    ("std::io::", "crate::stubs::io::"), ("std::fs::", "crate::stubs::fs::"), ("std::path::", "crate::stubs::path::"),
    ("std::cell::", "crate::stubs::cell::"), ("std::fmt::", "crate::stubs::fmt::"),
    ("std::env::", "crate::stubs::env::"), ("std::process::", "crate::stubs::process::"), ("std::thread::", "crate::stubs::thread::"), ("std::panic::", "crate::stubs::panic::"),
    ("std::ops::", "std::ops::"), ("std::io", "crate::stubs::io"),
    ("anyhow::", "crate::stubs::anyhow::"), ("aead::", "crate::stubs::aead::"), ("aes_gcm::", "crate::stubs::aead::"),
    ("chacha20poly1305::", "crate::stubs::aead::"), ("deoxys::", "crate::stubs::aead::"), ("zeroize::", "crate::stubs::zeroize::"),
    ("rand::", "crate::stubs::rand::"), ("argon2::", "crate::stubs::argon2::"), ("balloon_hash::", "crate::stubs::balloon_hash::"),
    ("blake3::", "crate::stubs::blake3::"), ("zip::", "crate::stubs::zip::"), ("walkdir::", "crate::stubs::walkdir::"),
    ("rpassword::", "crate::stubs::rpassword::"), ("clap::", "crate::stubs::clap::"),
    ("corecrypto::Payload", "crate::stubs::aead::Payload"), ("corecrypto::Zeroize", "crate::stubs::zeroize::Zeroize"),
    ("corecrypto::", "crate::corecrypto::"), ("tools::", "crate::tools::"),
]
PATHS = [(lex(a), lex(b)) for a, b in PATHS]

def paths(t, crate):
    out, i = [], 0
    prev = None
    while i < len(t):
        hit = False
        if t[i].k == "id" and (prev is None or prev.s != "::" ) and i + 1 < len(t) and t[i + 1].s == "::":
            if t[i].s == "crate":
                x = mk("crate::" + crate, t[i]); x[0].nl = t[i].nl
                if not (i + 2 < len(t) and t[i + 2].s in ("stubs", "corecrypto", "tools", "cli") and not (t[i + 2].s == crate == "cli")):
                    out += x; prev = out[-1]; i += 1; continue
            for a, b in PATHS:
                if all(i + k < len(t) and t[i + k].s == a[k].s for k in range(len(a))):
                    x = [Tok(y.k, y.s, t[i].ln, 0) for y in b]
                    x[0].nl = t[i].nl
                    out += x; i += len(a); prev = out[-1]; hit = True
                    break
        if not hit:
            out.append(t[i]); prev = t[i]; i += 1
    return out

def R(a, b): return (pat(a), pat(b), a + "  ==>  " + b)

GLOBAL = [
    R("anyhow::anyhow!$t_x", "crate::stubs::anyhow::mk()"),
    R(".with_context(|| $e_x)", '.context("")'),
    R("|_|", "|_e|"),
    R(".map_err(Error::$id_x)", ".map_err(|e__| Error::$id_x(e__))"),
    R("msg: $path_x.as_ref()", "msg: &$path_x[..]"),
    # interior mutability is made explicit: a shared RefCell becomes the exclusive reference it hands out
    R("= $path_x.borrow_mut();", "= &mut *$path_x;"),
    R(".borrow_mut()", ""),
    R(".borrow()", ""),
    R("&'a RefCell<$e_x>", "&'a mut $e_x"),
    R("&RefCell<$e_x>", "&mut $e_x"),
    R("RefCell<$e_x>", "$e_x"),
    R("AsRef<Path>", "crate::stubs::path::AsRefPath"),
    R("RefCell::new($e_x)", "$e_x"),
    R("impl Into<Payload<'msg, 'aad>>", "impl crate::stubs::aead::IntoPayload<'msg, 'aad>"),
    # array patterns become guards
    R("[$t_a, $t_b] =>", "_m if _m[0] == $t_a && _m[1] == $t_b =>"),
    # comparisons with array literals
    R("$path_x == [$t_v; $e_n]", "crate::stubs::slice_eq(&$path_x[..], &[$t_v; $e_n])"),
    R("$path_x != [$t_v; $e_n]", "!crate::stubs::slice_eq(&$path_x[..], &[$t_v; $e_n])"),
    R("$path_x[..$t_n] != [$t_v]", "!crate::stubs::slice_eq(&$path_x[..$t_n], &[$t_v])"),
    R("$path_x[..$t_n] == [$t_v]", "crate::stubs::slice_eq(&$path_x[..$t_n], &[$t_v])"),
    R("$path_x < HeaderVersion::$id_v", "$path_x.lt_(HeaderVersion::$id_v)"),
    R("$path_x <= HeaderVersion::$id_v", "$path_x.le_(HeaderVersion::$id_v)"),
    R("$path_x > HeaderVersion::$id_v", "$path_x.gt_(HeaderVersion::$id_v)"),
    R("$path_x >= HeaderVersion::$id_v", "$path_x.ge_(HeaderVersion::$id_v)"),
    R("assert!$t_x", "crate::stubs::exec_assert$t_x"),
    R(".try_into()", ".try_into_()"),
    R("i64::try_from($e_x)", "crate::stubs::TryInto_::<i64>::try_into_($e_x)"),
    R("usize::try_from($e_x)", "crate::stubs::TryInto_::<usize>::try_into_($e_x)"),
    R("$path_x.keyslots.clone()", "crate::corecrypto::header::clone_slots_(&$path_x.keyslots)"),
    R("[$e_x].repeat($e_n)", "vec![$e_x; $e_n]"),
    R("$path_x.into_iter().all(|$id_b| $id_b == 0)", "crate::stubs::all_zero_(&$path_x[..])"),
    R("$path_x.iter().all(|$id_b| *$id_b == 0)", "crate::stubs::all_zero_(&$path_x[..])"),
    R("$path_x.iter().all(|&$id_b| $id_b == 0)", "crate::stubs::all_zero_(&$path_x[..])"),
    R("$path_x.into_iter().any(|$id_b| $id_b != 0)", "!crate::stubs::all_zero_(&$path_x[..])"),
    R("$path_x.iter().any(|$id_b| *$id_b != 0)", "!crate::stubs::all_zero_(&$path_x[..])"),
    R("$path_x.iter().any(|&$id_b| $id_b != 0)", "!crate::stubs::all_zero_(&$path_x[..])"),
    # closures that would capture the world
    R("catch_unwind(AssertUnwindSafe(|| $e_x))", "crate::stubs::panic::caught_($e_x)"),
    R("$r_x.unwrap_or_else(|$id_p| resume_unwind($id_p))", "(match $r_x { Ok(v__) => v__, Err($id_p) => resume_unwind($id_p) })"),
    R("$r_x.or_else(|$id_e| $e_b)", "(match $r_x { Ok(v__) => Ok(v__), Err($id_e) => $e_b })"),
    R('include_str!("wordlist.lst")', "crate::stubs::words::wordlist_()"),
    R("$r_x.lines().collect::<Vec<_>>()", "crate::stubs::words::lines_($r_x)"),
    R("$r_x.lines().collect()", "crate::stubs::words::lines_($r_x)"),
    # what is said to the user
    R("warn!$t_x", "crate::stubs::say_()"), R("info!$t_x", "crate::stubs::say_()"), R("success!$t_x", "crate::stubs::say_()"), R("question!$t_x", "crate::stubs::say_()"), R("println!$t_x", "crate::stubs::say_()"),
    R("format!$t_x", "crate::stubs::text_()"),
    R("unreachable!()", "crate::stubs::unreachable_()"),
]

def pat_r(s):
    return pat(s)

def loop_values(t, cnt):
    """a `loop` that breaks with a value keeps it in a variable"""
    out, i = [], 0
    while i < len(t):
        if t[i].s == "loop" and t[i].k == "id" and i + 1 < len(t) and t[i + 1].s == "{":
            e = match_close(t, i + 1)
            body, n = _breaks(t[i + 2:e], "brk__%d" % cnt[0])
            if n:
                b = "brk__%d" % cnt[0]; cnt[0] += 1
                out += mk("({ let mut %s = None; loop {" % b, t[i]) + loop_values(body, cnt) + [t[e]] + mk("%s.unwrap() })" % b, t[e])
            else: out += t[i:i + 2] + loop_values(t[i + 2:e], cnt) + [t[e]]
            i = e + 1
        else:
            out.append(t[i]); i += 1
    return out

def _breaks(t, b):
    out, i, n = [], 0, 0
    while i < len(t):
        x = t[i]
        if x.k == "id" and x.s in ("loop", "while", "for"):
            k = i + 1
            while t[k].s != "{": k = _tt_end(t, k)
            e = match_close(t, k) + 1
            out += t[i:e]; i = e; continue
        if x.k == "id" and x.s == "break" and i + 1 < len(t) and t[i + 1].s not in (";", "}", ","):
            k = i + 1
            while k < len(t) and t[k].s not in (";", "}", ","): k = _tt_end(t, k)
            out += mk("{ %s = Some(" % b, x) + t[i + 1:k] + mk("); break; }", t[k - 1]); n += 1
            i = k + (1 if k < len(t) and t[k].s == ";" else 0); continue
        out.append(x); i += 1
    return out, n

def text_eqs(t, names):
    """comparisons in which one side is a known text"""
    out, i, n = list(t), 0, 0
    while i < len(out):
        if out[i].s in ("==", "!=") and out[i].k == "p":
            a = i
            while a > 0 and (out[a - 1].k in ("id", "num", "str") and out[a - 1].s not in KEYWORDS or out[a - 1].s in (".", "::")): a -= 1
            if a < i and a > 0 and out[a - 1].s == "*": a -= 1
            b = i + 1
            while b < len(out) and (out[b].s in ("&", "*") and b == i + 1 or out[b].k in ("id", "num", "str") and out[b].s not in KEYWORDS or out[b].s in (".", "::")): b += 1
            L, Rt = out[a:i], out[i + 1:b]
            key = lambda x: "".join(y.s for y in x).lstrip("&*")
            if L and Rt and (key(L) in names or key(Rt) in names) and not (b < len(out) and out[b].s in ("(", "[", "!", "{") and out[b].s != "{"):
                ref = lambda x: (mk("&", x[0]) + _nn(x)) if x[0].k != "str" and x[0].s != "&" else _nn(x)
                new = mk(("!" if out[i].s == "!=" else "") + "crate::stubs::text_eq_(", L[0]) + ref(L) + mk(",", L[0]) + ref(Rt) + mk(")", L[0])
                new[0].nl = L[0].nl
                out = out[:a] + new + out[b:]; n += 1; i = a + len(new); continue
        i += 1
    return out, n

WORLD_METHODS = set()   # filled from the contracts marked @world
WORLD_PATHS = []        # [["erase", "execute"], ...]

def world_calls(t):
    """calls of functions that take the explicit world get it as their first argument"""
    out, i = [], 0
    while i < len(t):
        x = t[i]
        out.append(x)
        if x.s == "(" and i > 0 and t[i - 1].k == "id":
            hit = False
            if i > 1 and t[i - 2].s == ".": hit = t[i - 1].s in WORLD_METHODS
            else:
                for p in WORLD_PATHS:
                    k, ok = i - 1, True
                    for n, q in enumerate(reversed(p)):
                        if k < 0 or t[k].s != q: ok = False; break
                        k -= 1
                        if n < len(p) - 1:
                            if k < 0 or t[k].s != "::": ok = False; break
                            k -= 1
                    if ok and (len(p) > 1 or k < 0 or t[k].s != "::" or True) and not (k >= 0 and t[k].s == "fn"): hit = True; break
            if hit: out += mk("wd" if t[i + 1].s == ")" else "wd,", x)
        i += 1
    return out

def mutlets(t):
    """`let x` becomes `let mut x`: which bindings are mutable changes nothing once a program compiles"""
    out = []
    for i, x in enumerate(t):
        out.append(x)
        if x.k == "id" and x.s == "let" and i + 2 < len(t) and t[i + 1].k == "id" and t[i + 1].s not in ("mut", "ref", "_") and t[i + 2].s in ("=", ":", ";") and not (i > 0 and t[i - 1].s in ("if", "while", "&&")):
            out += mk("mut", x)
    return out

def strip_attrs(t, features):
    """drop attributes inside bodies, and the statements they configure out"""
    out, i = [], 0
    while i < len(t):
        if t[i].s == "#" and i + 1 < len(t) and t[i + 1].s == "[":
            e = match_close(t, i + 1)
            a = flat(t[i + 2:e])
            i = e + 1
            if a.startswith("cfg (") and "feature" in a and "not (" not in a and a.split('"')[1] not in features:
                # drop the statement
                while t[i].s != ";":
                    e = _tt_end(t, i)
                    blk = t[i].s == "{"
                    i = e
                    if blk and not (i < len(t) and t[i].s in (";", ".", "else")):
                        i -= 1; break
                i += 1
            continue
        out.append(t[i]); i += 1
    return out

def drop_calls(t):
    out = []
    for i, x in enumerate(t):
        if x.s == "drop" and x.k == "id" and i + 1 < len(t) and t[i + 1].s == "(" and (i == 0 or t[i - 1].s not in (".", "::", "fn")):
            out += mk("crate::stubs::drop_", x)
        else: out.append(x)
    return out

def fors(t, cnt):
    """for loops over ranges, slices and enumerate() become index loops; `cnt` numbers them"""
    out, i = [], 0
    while i < len(t):
        if t[i].s == "for" and t[i].k == "id" and i + 1 < len(t) and t[i + 1].s != "<":
            j = i + 1
            while t[j].s != "in":
                j = _tt_end(t, j)
            pt = t[i + 1:j]
            k = j + 1
            while t[k].s != "{": k = _tt_end(t, k)
            it = fors(t[j + 1:k], cnt)
            e = match_close(t, k)
            body = t[k + 1:e]
            n = cnt[0]; cnt[0] += 1
            body = fors(body, cnt)
            new = None
            f = flat(it)
            like = t[i]
            I, V, E = "it__%d" % n, "v__%d" % n, "end__%d" % n
            d = [q for q in range(len(it)) if it[q].s in ("..", "..=")]
            depth_ok = [q for q in d if _depth0(it, q)]
            if depth_ok and len(depth_ok) == 1 and it[depth_ok[0]].s == "..":
                q = depth_ok[0]
                lo, hi = it[:q], it[q + 1:]
                if hi:
                    new = (mk("{ let mut %s =" % I, like) + _nn(lo) + mk("; let %s =" % E, like) + _nn(hi) +
                           mk("; while %s < %s {" % (I, E), like) +
                           (mk("let", like) + pt + mk("= %s;" % I, like) if flat(pt) != "_" else []) +
                           mk("%s += 1;" % I, like) + body + [t[e]] + mk("}", t[e]))
            else:
                src, pats = None, None
                mut = False
                r = _match(pat("$e_v.iter().enumerate()"), 0, it, 0, {})
                if r and r[0] == len(it) and pt and pt[0].s == "(":
                    a = [x for x in pt[1:-1]]
                    c = next(q for q, x in enumerate(a) if x.s == ",")
                    new = _idx(like, I, V, mk("&", like) + r[1]["e_v"], [(a[:c], "%s" % I), (a[c + 1:], "&%s[%s]" % (V, I))], body, t[e], None)
                else:
                    r = _match(pat("$e_v.into_iter().take_while(|$id_b| $e_c)"), 0, it, 0, {})
                    if r and r[0] == len(it):
                        # |bs| COND with bs: &T
                        chk = mk("let", like) + r[1]["id_b"] + mk("= &%s[%s]; if !(" % (V, I), like) + _nn(r[1]["e_c"]) + mk(") { break; }", like)
                        new = _idx(like, I, V, r[1]["e_v"], [(pt, "%s[%s]" % (V, I))], body, t[e], chk)
                    else:
                        r0 = _match(pat("$e_v.into_iter()"), 0, it, 0, {})
                        r = _match(pat("$e_v.iter()"), 0, it, 0, {})
                        if r0 and r0[0] == len(it):
                            # by value: the items are taken out one after the other
                            new = _idx(like, I, V, r0[1]["e_v"], [(pt, "crate::stubs::take_at(&mut %s, %s)" % (V, I))], body, t[e], None, "mut")
                            r = None
                        elif r is None: pass
                        if r and r[0] == len(it):
                            new = _idx(like, I, V, mk("&", like) + r[1]["e_v"], [(pt, "&%s[%s]" % (V, I))], body, t[e], None)
                        elif it[0].s == "&" and len(it) > 1:
                            new = _idx(like, I, V, it, [(pt, "&%s[%s]" % (V, I))], body, t[e], None)
                        elif len(it) == 1 and it[0].k == "id":
                            # by value/reference: only usable for references to slices and vectors
                            new = _idx(like, I, V, it, [(pt, "&%s[%s]" % (V, I))], body, t[e], None)
            if new is None: raise LexError("for loop over `%s` is not supported" % f)
            out += new
            i = e + 1
        else:
            out.append(t[i]); i += 1
    return out

def _nn(t):
    return [Tok(x.k, x.s, x.ln, 0) for x in t]

def _depth0(t, q):
    d = 0
    for x in t[:q]:
        if x.k == "p":
            if x.s in OPEN: d += 1
            elif x.s in CLOSE: d -= 1
    return d == 0

def _idx(like, I, V, src, binds, body, close, chk, mut=""):
    r = mk("{ let %s %s =" % (mut, V), like) + _nn(src) + mk("; let mut %s: usize = 0; while %s < %s.len() {" % (I, I, V), like)
    if chk: r += chk
    for p, ex in binds:
        if flat(p) != "_": r += mk("let", like) + _nn(p) + mk("= %s;" % ex, like)
    r += mk("%s += 1;" % I, like) + body + [close] + mk("}", close)
    return r

def apply_global(t, crate, used):
    for p, rep, name in GLOBAL:
        t, n, _ = rewrite(t, p, rep)
        if n: used[name] = used.get(name, 0) + n
    n0 = len(t)
    t = drop_calls(t)
    if len(t) != n0: used["drop(x)  ==>  crate::stubs::drop_(x)"] = 1
    t = paths(t, crate)
    return t
