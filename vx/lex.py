"""Rust tokenizer, good enough to cut items out of source files and rewrite token sequences."""
import re

class Tok:
    __slots__ = ("k", "s", "ln", "nl")
    def __init__(self, k, s, ln, nl=0):
        self.k, self.s, self.ln, self.nl = k, s, ln, nl   # nl: newlines before the token
    def __repr__(self):
        return self.s

PUNCT = ["<<=", ">>=", "...", "..=", "->", "=>", "::", "..", "==", "!=", "<=", ">=", "&&", "||",
         "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|="]
RE_WS = re.compile(r"\s+")
RE_ID = re.compile(r"[A-Za-z_][A-Za-z0-9_]*")
RE_NUM = re.compile(r"0[xX][0-9a-fA-F_]+[a-z0-9]*|0[bo][0-7_]+[a-z0-9]*|[0-9][0-9_]*(?:\.[0-9][0-9_]*)?(?:[eE][+-]?[0-9]+)?[a-z0-9_]*")
RE_RAW = re.compile(r'b?r(#*)"')
RE_CHAR = re.compile(r"b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)|[^\\'])'", re.S)
RE_LIFE = re.compile(r"'[A-Za-z_][A-Za-z0-9_]*")

class LexError(Exception):
    pass

def lex(src):
    out, i, ln, nl, n = [], 0, 1, 1, len(src)
    def push(k, s):
        nonlocal i, ln, nl
        out.append(Tok(k, s, ln, nl))
        nl = 0
        c = s.count("\n")
        ln += c
        i += len(s)
    while i < n:
        m = RE_WS.match(src, i)
        if m:
            c = m.group().count("\n")
            ln += c; nl += c; i = m.end(); continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
            continue
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while d and j < n:
                if src.startswith("/*", j): d += 1; j += 2
                elif src.startswith("*/", j): d -= 1; j += 2
                else: j += 1
            c = src.count("\n", i, j)
            ln += c; nl += c; i = j; continue
        m = RE_RAW.match(src, i)
        if m:
            end = '"' + m.group(1)
            j = src.find(end, m.end())
            if j < 0: raise LexError("raw string")
            push("str", src[i:j + len(end)]); continue
        if src[i] == '"' or src.startswith('b"', i):
            j = i + (2 if src[i] == "b" else 1)
            while j < n and src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            push("str", src[i:j + 1]); continue
        m = RE_CHAR.match(src, i)
        if m:
            push("char", m.group()); continue
        m = RE_LIFE.match(src, i)
        if m:
            push("life", m.group()); continue
        m = RE_ID.match(src, i)
        if m:
            push("id", m.group()); continue
        if src[i].isdigit():
            m = RE_NUM.match(src, i)
            s = m.group()
            push("num", s); continue
        for p in PUNCT:
            if src.startswith(p, i):
                push("p", p); break
        else:
            push("p", src[i])
    return out

OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = set(OPEN.values())

def match_close(t, i):
    """index of the token closing the bracket at t[i]"""
    d = 0
    for j in range(i, len(t)):
        if t[j].k == "p":
            if t[j].s in OPEN: d += 1
            elif t[j].s in CLOSE:
                d -= 1
                if d == 0: return j
    raise LexError("unbalanced at line %d" % t[i].ln)

def match_angle(t, i):
    """index of the '>' closing the '<' at t[i] (generics only)"""
    d = 0
    j = i
    while j < len(t):
        s = t[j].s
        if t[j].k == "p":
            if s == "<": d += 1
            elif s == ">":
                d -= 1
                if d == 0: return j
            elif s in OPEN: j = match_close(t, j)
        j += 1
    raise LexError("unbalanced <")

def split_commas(t):
    """split at top-level commas"""
    out, cur, j = [], [], 0
    d = 0
    while j < len(t):
        s = t[j].s
        if t[j].k == "p":
            if s in OPEN:
                e = match_close(t, j)
                cur += t[j:e + 1]; j = e + 1; continue
            if s == "<": d += 1
            elif s == ">" : d -= 1
            elif s == "," and d <= 0:
                out.append(cur); cur = []; j += 1; continue
        cur.append(t[j]); j += 1
    if cur: out.append(cur)
    return out

def text(t):
    """tokens to text, keeping line breaks"""
    o = []
    for x in t:
        o.append("\n" * x.nl if x.nl else " ")
        o.append(x.s)
    return "".join(o)

def flat(t):
    return " ".join(x.s for x in t)

def mk(s, like=None):
    """tokens from text; line info taken from `like`"""
    r = lex(s)
    for x in r:
        x.nl = 0
        if like is not None: x.ln = like.ln
    if r and like is not None: r[0].nl = like.nl
    return r
