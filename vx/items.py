"""Index of the items of a crate, cut out of its source files."""
import os
from .lex import lex, match_close, match_angle, split_commas, flat, LexError

class Fn:
    def __init__(self): pass
class Item:
    def __init__(self, **kw): self.__dict__.update(kw)

def _attrs(t, i):
    """skip attributes; returns (index, list of attribute token lists)"""
    at = []
    while i < len(t) and t[i].s == "#":
        j = i + 1
        if t[j].s == "!": j += 1
        e = match_close(t, j)
        at.append(t[j + 1:e])
        i = e + 1
    return i, at

def is_cfg_out(attrs, features):
    for a in attrs:
        f = flat(a)
        if f.startswith("cfg ("):
            if f == "cfg ( test )": return True
            if f == "cfg ( not ( test ) )": continue
            if "feature = " in f:
                name = f.split('"')[1]
                neg = "not (" in f
                if (name in features) == neg: return True
    return False

class Crate:
    def __init__(self, name, root, features=()):
        self.name, self.features = name, features
        self.fns, self.types, self.consts, self.uses, self.mods, self.impls = {}, {}, {}, {}, [], []
        self.files = []
        self.errors = []
        self._file(root, name, os.path.dirname(root))

    def _file(self, path, mod, subdir):
        self.files.append(path)
        try:
            toks = lex(open(path, encoding="utf-8").read())
            self.mods.append(mod)
            self.uses.setdefault(mod, [])
            self._items(toks, mod, path, subdir)
        except (LexError, IndexError, OSError) as e:
            self.errors.append("%s: %s" % (path, e))

    def _items(self, t, mod, path, subdir):
        i = 0
        while i < len(t):
            i, attrs = _attrs(t, i)
            if i >= len(t): break
            st = i
            out = is_cfg_out(attrs, self.features)
            if t[i].s == "pub":
                i += 1
                if t[i].s == "(": i = match_close(t, i) + 1
            s = t[i].s
            if s == "use":
                e = i
                while t[e].s != ";":
                    e = match_close(t, e) + 1 if t[e].s == "{" else e + 1
                if not out: self.uses[mod].append((t[st].s == "pub", t[i + 1:e]))
                i = e + 1
            elif s == "mod":
                name = t[i + 1].s
                if t[i + 2].s == ";":
                    if not out:
                        f = os.path.join(subdir, name + ".rs")
                        d = os.path.join(subdir, name)
                        if not os.path.exists(f): f = os.path.join(d, "mod.rs")
                        self._file(f, mod + "::" + name, d)
                    i += 3
                else:
                    e = match_close(t, i + 2)
                    if not out:
                        m = mod + "::" + name
                        self.mods.append(m); self.uses.setdefault(m, [])
                        self._items(t[i + 3:e], m, path, os.path.join(subdir, name))
                    i = e + 1
            elif s in ("struct", "enum", "union"):
                j = i
                while t[j].s not in ("{", ";", "("):
                    j = match_angle(t, j) + 1 if t[j].s == "<" else j + 1
                if t[j].s == "(":
                    j = match_close(t, j) + 1
                    while t[j].s != ";": j += 1
                elif t[j].s == "{": j = match_close(t, j)
                if not out:
                    self.types[mod + "::" + t[i + 1].s] = Item(mod=mod, name=t[i + 1].s, kind=s, attrs=attrs, toks=t[i:j + 1], path=path)
                i = j + 1
            elif s in ("const", "static") and t[i + 1].s not in ("fn", "unsafe"):
                e = i
                while t[e].s != ";":
                    e = match_close(t, e) + 1 if t[e].s in "([{" else e + 1
                if not out: self.consts[mod + "::" + t[i + 1].s] = Item(mod=mod, name=t[i + 1].s, kind=s, toks=t[i:e + 1], path=path)
                i = e + 1
            elif s == "type":
                e = i
                while t[e].s != ";": e += 1
                if not out: self.types[mod + "::" + t[i + 1].s] = Item(mod=mod, name=t[i + 1].s, kind="type", attrs=attrs, toks=t[i:e + 1], path=path)
                i = e + 1
            elif s == "impl":
                j = i
                while t[j].s != "{":
                    j = match_angle(t, j) + 1 if t[j].s == "<" else j + 1
                e = match_close(t, j)
                if not out: self._impl(t[i:j], t[j + 1:e], mod, path)
                i = e + 1
            elif s == "trait":
                j = i
                while t[j].s != "{":
                    j = match_angle(t, j) + 1 if t[j].s == "<" else j + 1
                e = match_close(t, j)
                if not out:
                    self.types[mod + "::" + t[i + 1].s] = Item(mod=mod, name=t[i + 1].s, kind="trait", attrs=attrs, toks=t[i:e + 1], path=path)
                    self._fns(t[j + 1:e], mod, path, mod + "::" + t[i + 1].s, t[i:j], None)
                i = e + 1
            elif s == "macro_rules":
                e = match_close(t, i + 3)
                i = e + 1
                if i < len(t) and t[i].s == ";": i += 1
            elif s in ("fn", "const", "async", "unsafe", "extern"):
                if s == "extern" and t[i + 1].s == "crate":
                    while t[i].s != ";": i += 1
                    i += 1; continue
                i = self._fn(t, i, mod, path, mod, None, None, out, attrs)
            elif s == ";":
                i += 1
            else:
                # a macro invocation at item level or something unknown: skip to its end
                j = i
                while j < len(t) and t[j].s not in ("{", ";", "("): j += 1
                if j >= len(t): break
                i = (match_close(t, j) + 1) if t[j].s in ("{", "(") else j + 1
                if i < len(t) and t[i].s == ";": i += 1

    def _impl(self, head, body, mod, path):
        # head: impl <generics>? [Trait for] Type [where ..]
        j = 1
        if head[j].s == "<": j = match_angle(head, j) + 1
        rest = head[j:]
        w = next((k for k, x in enumerate(rest) if x.s == "where"), len(rest))
        f = next((k for k, x in enumerate(rest[:w]) if x.s == "for" and x.k == "id"), None)
        if f is None: trait, ty = None, rest[:w]
        else: trait, ty = rest[:f], rest[f + 1:w]
        def last(tt):
            n, d = None, 0
            for x in tt:
                if x.s == "<": d += 1
                elif x.s == ">": d -= 1
                elif x.k == "id" and d == 0: n = x.s
            return n
        name = last(ty)
        owner = mod + "::" + name
        if trait is not None: owner += "@" + last(trait)
        self.impls.append(Item(mod=mod, head=head, trait=trait and last(trait), ty=name, path=path))
        self._fns(body, mod, path, owner, head, trait and last(trait))

    def _fns(self, t, mod, path, owner, head, trait):
        i = 0
        while i < len(t):
            i, attrs = _attrs(t, i)
            if i >= len(t): break
            out = is_cfg_out(attrs, self.features)
            if t[i].s == "pub":
                i += 1
                if t[i].s == "(": i = match_close(t, i) + 1
            if t[i].s in ("type", "const") and t[i + 1].s != "fn":
                e = i
                while t[e].s != ";": e += 1
                i = e + 1
                continue
            i = self._fn(t, i, mod, path, owner, head, trait, out, attrs)

    def _fn(self, t, i, mod, path, owner, head, trait, out, attrs):
        st = i
        while t[i].s != "fn": i += 1
        f = Fn()
        f.mod, f.path, f.owner, f.head, f.trait, f.attrs = mod, path, owner, head, trait, attrs
        f.name = t[i + 1].s
        f.line = t[st].ln
        i += 2
        f.generics = []
        if t[i].s == "<":
            e = match_angle(t, i)
            f.generics = t[i:e + 1]
            i = e + 1
        e = match_close(t, i)
        f.params = split_commas(t[i + 1:e])
        i = e + 1
        f.ret = []
        if t[i].s == "->":
            j = i + 1
            while t[j].s not in ("{", ";", "where"):
                j = match_angle(t, j) + 1 if t[j].s == "<" else (match_close(t, j) + 1 if t[j].s in "([" else j + 1)
            f.ret = t[i + 1:j]
            i = j
        f.where = []
        if t[i].s == "where":
            j = i
            while t[j].s not in ("{", ";"):
                j = match_angle(t, j) + 1 if t[j].s == "<" else j + 1
            f.where = t[i:j]
            i = j
        if t[i].s == ";":
            f.body = None
            f.endline = t[i].ln
            i += 1
        else:
            e = match_close(t, i)
            f.body = t[i + 1:e]
            f.endline = t[e].ln
            i = e + 1
        f.key = owner + "::" + f.name
        if not out: self.fns[f.key] = f
        return i
