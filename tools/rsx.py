"""A small Rust source reader: lexing, item lookup, loop/closure positions.

Used to extract functions of /repo mechanically and to place contract text
around them.  It never changes executable tokens except through the explicit
rewriting rules listed in extract.py.
"""
import re


class RsxError(Exception):
    pass


class Tok:
    __slots__ = ("k", "s", "a", "b")

    def __init__(self, k, s, a, b):
        self.k, self.s, self.a, self.b = k, s, a, b

    def __repr__(self):
        return f"{self.k}:{self.s!r}"


_ID = re.compile(r"(?:r#)?[A-Za-z_\u0080-\U0010ffff][A-Za-z0-9_\u0080-\U0010ffff]*")
_NUM = re.compile(r"[0-9](?:[0-9a-zA-Z_]|\.(?=[0-9]))*")
_RAW = re.compile(r'(?:b|c)?r(#*)"')


def lex(src):
    """Tokens without whitespace and comments (kinds: id, num, str, chr, life, p)."""
    out, i, n = [], 0, len(src)
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1
            continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
            continue
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith("/*", j):
                    d += 1
                    j += 2
                elif src.startswith("*/", j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            i = j
            continue
        m = _RAW.match(src, i)
        if m:
            end = src.find('"' + m.group(1), m.end())
            if end < 0:
                raise RsxError("unterminated raw string")
            j = end + 1 + len(m.group(1))
            out.append(Tok("str", src[i:j], i, j))
            i = j
            continue
        if c == '"' or (c in "bc" and i + 1 < n and src[i + 1] == '"'):
            j = i + (1 if c == '"' else 2)
            while j < n and src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            j += 1
            out.append(Tok("str", src[i:j], i, j))
            i = j
            continue
        if c == "'" or (c == "b" and i + 1 < n and src[i + 1] == "'"):
            k = i + (0 if c == "'" else 1)
            # lifetime or char
            m = re.compile(r"'(?:\\(?:u\{[0-9a-fA-F_]+\}|x[0-9a-fA-F]{2}|.)|[^\\'])'", re.S).match(src, k)
            if m:
                out.append(Tok("chr", src[i:m.end()], i, m.end()))
                i = m.end()
                continue
            m = re.compile(r"'[A-Za-z_][A-Za-z0-9_]*").match(src, k)
            if m:
                out.append(Tok("life", m.group(0), k, m.end()))
                i = m.end()
                continue
        m = _ID.match(src, i)
        if m:
            out.append(Tok("id", m.group(0), i, m.end()))
            i = m.end()
            continue
        m = _NUM.match(src, i)
        if m:
            out.append(Tok("num", m.group(0), i, m.end()))
            i = m.end()
            continue
        for p in ("..=", "<<=", ">>=", "...", "::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "+=", "-=",
                  "*=", "/=", "%=", "^=", "&=", "|=", ".."):
            if src.startswith(p, i):
                out.append(Tok("p", p, i, i + len(p)))
                i += len(p)
                break
        else:
            out.append(Tok("p", c, i, i + 1))
            i += 1
    return out


OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {v: k for k, v in OPEN.items()}


def match_close(toks, i):
    """Index of the token closing the bracket at toks[i]."""
    d = 0
    for j in range(i, len(toks)):
        t = toks[j]
        if t.k == "p":
            if t.s in OPEN:
                d += 1
            elif t.s in CLOSE:
                d -= 1
                if d == 0:
                    return j
    raise RsxError("unbalanced brackets")


class Item:
    """kind: fn, struct, enum, impl, mod, const, static, type, use, macro, trait, other."""

    def __init__(self, kind, name, toks, attr0, i0, i1, body=None, path=()):
        self.kind, self.name, self.toks = kind, name, toks
        self.attr0, self.i0, self.i1, self.body, self.path = attr0, i0, i1, body, path

    def span(self, attrs=False):
        a = self.toks[self.attr0 if attrs else self.i0].a
        return a, self.toks[self.i1].b


ITEM_KW = {"fn", "struct", "enum", "impl", "mod", "const", "static", "type", "use", "trait", "macro_rules", "union",
           "extern"}
MODIF = {"pub", "async", "unsafe", "default", "extern", "const"}


def _skip_angle(toks, i):
    """toks[i] is '<': index after the matching '>'."""
    d = 0
    while i < len(toks):
        s = toks[i].s
        if s == "<":
            d += 1
        elif s == ">":
            d -= 1
        elif s == ">>":
            d -= 2
        elif s in ("(", "[", "{"):
            i = match_close(toks, i)
        i += 1
        if d <= 0:
            return i
    raise RsxError("unbalanced <")


def parse_items(toks, lo, hi, path=()):
    items, i = [], lo
    while i < hi:
        attr0 = i
        while i < hi and toks[i].s == "#":
            j = i + 1
            if toks[j].s == "!":
                j += 1
            i = match_close(toks, j) + 1
            if j != attr0 + 1 and toks[attr0 + 1].s == "!":
                attr0 = i
        i0 = i
        if i >= hi:
            break
        # visibility and modifiers
        while i < hi and toks[i].k == "id" and toks[i].s in MODIF:
            if toks[i].s == "pub" and toks[i + 1].s == "(":
                i = match_close(toks, i + 1) + 1
                continue
            if toks[i].s == "const" and toks[i + 1].s != "fn" and toks[i + 1].s not in MODIF:
                break
            if toks[i].s == "extern" and toks[i + 1].k == "str":
                i += 2
                continue
            i += 1
        t = toks[i]
        kw = t.s
        if t.k != "id" or kw not in ITEM_KW:
            if t.k == "id" and toks[i + 1].s == "!":  # macro invocation item
                j = i + 2
                if toks[j].k == "id":
                    j += 1
                e = match_close(toks, j)
                if e + 1 < hi and toks[e + 1].s == ";":
                    e += 1
                items.append(Item("macrocall", t.s, toks, attr0, i0, e, None, path))
                i = e + 1
                continue
            if t.k == "id" and "::" == toks[i + 1].s:
                # path macro
                j = i
                while toks[j].s not in ("(", "{", "[", ";"):
                    j += 1
                e = match_close(toks, j) if toks[j].s in OPEN else j
                if e + 1 < hi and toks[e + 1].s == ";":
                    e += 1
                items.append(Item("macrocall", t.s, toks, attr0, i0, e, None, path))
                i = e + 1
                continue
            i += 1
            continue
        if kw == "macro_rules":
            name = toks[i + 2].s
            e = match_close(toks, i + 3)
            if toks[i + 3].s != "{" and e + 1 < hi and toks[e + 1].s == ";":
                e += 1
            items.append(Item("macro", name, toks, attr0, i0, e, None, path))
            i = e + 1
            continue
        # find end: first ';' or '{...}' at depth 0
        j, body = i + 1, None
        name = toks[j].s if kw != "impl" else None
        if kw == "impl":
            k = j
            if toks[k].s == "<":
                k = _skip_angle(toks, k)
            hdr = []
            while toks[k].s not in ("{", ";"):
                hdr.append(toks[k])
                k += 1
            txt = [x.s for x in hdr]
            if "where" in txt:
                txt = txt[:txt.index("where")]
            if "for" in txt:
                p = txt.index("for")
                trait, ty = txt[:p], txt[p + 1:]
            else:
                trait, ty = None, txt
            def base(ts):
                out, d = [], 0
                for x in ts:
                    if x == "<":
                        d += 1
                    elif x == ">":
                        d -= 1
                    elif d == 0 and x not in ("&", "mut", "dyn") and not x.startswith("'"):
                        out.append(x)
                return "".join(out).split("::")[-1]
            name = base(ty) if trait is None else f"{base(trait)} for {base(ty)}"
        k = j
        while k < hi:
            s = toks[k].s
            if s == ";":
                break
            if s == "{":
                body = k
                break
            if s in ("(", "["):
                k = match_close(toks, k)
            if s == "=" and kw in ("const", "static", "type"):
                while toks[k].s != ";":
                    if toks[k].s in OPEN:
                        k = match_close(toks, k)
                    k += 1
                break
            k += 1
        if kw == "use":
            k = j
            while toks[k].s != ";":
                k += 1
            body = None
        if body is not None:
            e = match_close(toks, body)
        else:
            e = k
        it = Item(kw, name, toks, attr0, i0, e, body, path)
        it.kwi = i
        items.append(it)
        if kw in ("impl", "mod", "trait") and body is not None:
            items.extend(parse_items(toks, body + 1, e, path + ((kw, name),)))
        i = e + 1
    return items


class Source:
    def __init__(self, path, text=None):
        self.path = path
        self.src = open(path, encoding="utf-8").read() if text is None else text
        self.toks = lex(self.src)
        self.items = parse_items(self.toks, 0, len(self.toks))

    def in_test(self, it):
        return any(k == "mod" and n in ("tests", "test") for k, n in it.path)

    def fns(self):
        return [x for x in self.items if x.kind == "fn" and not self.in_test(x)]

    def find(self, kind, spec):
        """spec: 'name' for a free item, 'Type::name' for a method (inherent or trait impl)."""
        owner, _, name = spec.rpartition("::")
        cand = []
        for it in self.items:
            if it.kind != kind or it.name != name or self.in_test(it):
                continue
            impls = [n for k, n in it.path if k in ("impl", "trait")]
            if owner:
                if not impls:
                    continue
                o = impls[-1]
                if o == owner or o.endswith(f" for {owner}") and kind == "fn":
                    cand.append((0 if o == owner else 1, it))
            elif not impls:
                cand.append((0, it))
        if not cand:
            raise RsxError(f"{kind} {spec} not found in {self.path}")
        cand.sort(key=lambda x: x[0])
        return cand[0][1]

    def text(self, it, attrs=False):
        a, b = it.span(attrs)
        return self.src[a:b]


class Fn:
    """A function text split into signature / body with loops and closures located."""

    def __init__(self, text):
        self.text = text
        self.toks = lex(text)
        self._analyse()

    def _analyse(self):
        t = self.toks
        i = 0
        while t[i].s != "fn":
            i += 1
        self.fn_i = i
        self.name = t[i + 1].s
        k = i + 2
        if t[k].s == "<":
            k = _skip_angle(t, k)
        assert t[k].s == "("
        self.par_open, self.par_close = k, match_close(t, k)
        k = self.par_close + 1
        self.ret = None
        if t[k].s == "->":
            r0 = k + 1
            k = r0
            while t[k].s not in ("{", "where", ";"):
                if t[k].s in ("(", "["):
                    k = match_close(t, k)
                elif t[k].s == "<":
                    k = _skip_angle(t, k) - 1
                k += 1
            self.ret = (r0, k - 1)
        while t[k].s not in ("{", ";"):
            k += 1
        if t[k].s == ";":
            raise RsxError("function without body")
        self.body = (k, match_close(t, k))
        self.loops = []
        for j in range(self.body[0] + 1, self.body[1]):
            x = t[j]
            if x.k != "id" or x.s not in ("for", "while", "loop"):
                continue
            if x.s == "for" and t[j + 1].s == "<":
                continue
            if t[j - 1].s == ".":
                continue
            b = j + 1
            in_pos = None
            while t[b].s != "{":
                if t[b].s == "in" and t[b].k == "id" and in_pos is None:
                    in_pos = b
                if t[b].s in ("(", "["):
                    b = match_close(t, b)
                b += 1
            self.loops.append({"kw": x.s, "i": j, "in": in_pos, "open": b, "close": match_close(t, b)})
        # closures: '|' or '||' in expression-start position
        self.closures = []
        j = self.body[0] + 1
        while j < self.body[1]:
            x = t[j]
            prev = t[j - 1]
            if x.k == "p" and x.s in ("|", "||") and (
                    prev.s in ("(", ",", "=", "{", ";", "=>", "return", "move", "&", "else") ):
                # a match arm may start with '|'; ignore leading-| patterns
                if x.s == "||":
                    p0 = p1 = j
                else:
                    p0, p1 = j, j + 1
                    while t[p1].s != "|":
                        if t[p1].s in OPEN:
                            p1 = match_close(t, p1)
                        elif t[p1].s == "<":
                            p1 = _skip_angle(t, p1) - 1
                        p1 += 1
                b0 = p1 + 1
                if t[b0].s == "->":
                    while t[b0].s != "{":
                        b0 += 1
                e = b0
                while e < self.body[1]:
                    s = t[e].s
                    if s in OPEN:
                        e = match_close(t, e) + 1
                        if s == "{" and e - 1 > b0 and t[b0].s == "{" and match_close(t, b0) == e - 1 and t[e].s in (")", ",", ";"):
                            break
                        continue
                    if s in CLOSE or s in (",", ";"):
                        break
                    e += 1
                self.closures.append({"p0": p0, "p1": p1, "b0": b0, "b1": e - 1})
                j = p1 + 1
                continue
            j += 1

    def shape(self):
        """Structure fingerprint used to tell 'same structure' from 'restructured'."""
        return {"loops": [l["kw"] for l in self.loops], "closures": len(self.closures)}
