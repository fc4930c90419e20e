"""Template processor: real functions of /repo + contract text -> one Verus file.

A template (specs/pNN.rs) is Verus text.  Lines starting with `//@` pull in
source text of /repo, mechanically, on every run:

  //@methods a b c            in every extracted fn, `.a(` becomes `.vx_a(` (trusted wrappers, see vlib.rs)
  //@paths A::b=vx_c ...      path call `A::b(` becomes `vx_c(`
  //@strings a.b c          `a.b[x..y]` becomes `a.b.as_str()[x..y]`
  //@item FILE struct Name [derive=Clone,Copy]     a struct/enum/const/type item, attributes dropped
  //@fn FILE Name|Type::name [as=newname]
  //@ret r                    names the result
  //@contract                 (following lines) requires/ensures/decreases
  //@loop K it                ghost iterator name + (following lines) invariants of the K-th loop
  //@closure K PARAMS -> RET  typed parameters/result + (following lines) requires/ensures
  //@at start | loop K start | loop K end | after loop K | before `tokens` | after `tokens`
                              (following lines) ghost code placed there
  //@subst `tokens` => `text` a recorded rewriting of executable text
  //@end

Everything between `//@fn` and `//@end` is placed around the unchanged tokens
of the function; the only executable edits are the rules in RULES, each use of
which is recorded and reported.
"""
import re
from rsx import Source, Fn, lex, match_close, RsxError, Tok

REPO = "/repo"


class ExtractError(Exception):
    """The source no longer has the place a contract is anchored at."""


RULES = {
    "drop-tracing": "statements `tracing::…!(…);` are dropped (logging only)",
    "anyhow": "`anyhow!(…)` becomes `vx_anyhow()`: the error's text is dropped",
    "bail": "`bail!(…)` / `anyhow::bail!(…)` becomes `return Err(vx_anyhow())`",
    "method": "`.m(` becomes `.vx_m(` for library methods without a Verus contract; vx_m calls m (trusted contract)",
    "path": "`T::f(` becomes `vx_f(` for library functions without a Verus contract (trusted contract)",
    "closure-pattern": "a closure parameter pattern becomes a `let` at the start of the closure body",
    "const": "`const N: &T = E;` becomes a constant with the body E and a postcondition (the lifetime 'static is written out)",
    "attrs": "attributes and doc comments of items and functions are dropped",
    "string-index": "`s[a..b]` on a String becomes `s.as_str()[a..b]` (String indexing is str indexing)",
    "unreachable": "`unreachable!(…)`/`panic!(…)`/`todo!()` become `vx_panic()` with `requires false`",
    "subst": "recorded substitution",
    "inlined": "the rest of a closure's block that is under contract as a slice of its own becomes a call of that slice",
    "slice": "a named run of consecutive statements of a body becomes a function of the variables it uses (contract holds for all their values)",
    "drop": "statements that only print, compute what is printed or leave later variables unchanged are dropped (checked: no return/break/continue/?, no change of a later used variable)",
    "drop-print": "statements `println!(…);`/`eprintln!(…);`/`writeln!(stdout…)` are dropped (output only)",
    "format": "`format!(…)` becomes `vx_format()`: some text about which nothing is known",
    "let-chain": "`if A && let P = E {..}` without else becomes `if A { if let P = E {..} }`",
    "continue": "in a for body, a `continue` after which nothing of the body is left to run becomes `{}`; `if A { S; continue; } REST` becomes `if A { S; } else { REST }`; likewise for `let P = E else { S; continue; };` a match arm that is `continue`, and `let X = if A { V } else { continue }` (through an Option)",
    "str-match": "`match e { \"lit\" => X, .. _ => Y }` becomes `if e == \"lit\" { X } .. else { Y }`",
    "hoist-iterable": "`for P in E {..}` becomes `let v = E; for P in v {..}`",
    "mut-self": "`fn f(mut self, ..)` becomes `fn f(self, ..) { let mut vx_self = self; .. }`",
    "inline-mod": "statement-level items inside a function are left in place",
    "for-ref": "`for PAT in &E`/`&mut E` becomes `for PAT in (&E).into_iter()`-equivalent `E.iter()`",
}


def norm(s):
    return " ".join(t.s for t in lex(s))


class Edit:
    """Ordered text insertions/replacements on a source string by character offset."""

    def __init__(self, text):
        self.text, self.ops = text, []

    def ins(self, pos, s, prio=0):
        self.ops.append((pos, pos, s, prio, len(self.ops)))

    def rep(self, a, b, s):
        self.ops.append((a, b, s, 0, len(self.ops)))

    def apply(self):
        out, last = [], 0
        for a, b, s, _, _ in sorted(self.ops, key=lambda o: (o[0], o[1], o[3], o[4])):
            if a < last:
                raise ExtractError("overlapping rewrites")
            out.append(self.text[last:a])
            out.append(s)
            last = b
        out.append(self.text[last:])
        return "".join(out)


def parse_args(s):
    """`x` => `y` style arguments."""
    return re.findall(r"`([^`]*)`", s)


_EXP = {}


def expanded(f):
    """the file with its macros expanded by rustc (a self-contained module)"""
    if f not in _EXP:
        import subprocess, os
        env = dict(os.environ, HOME="/root", CARGO_HOME="/root/.cargo", RUSTUP_HOME="/root/.rustup",
                   PATH="/root/.cargo/bin:" + os.environ.get("PATH", ""))
        env.pop("RUSTUP_TOOLCHAIN", None)
        p = subprocess.run(["rustc", "+nightly", "-Zunpretty=expanded", "--edition", "2024", "--crate-type", "lib", f"{REPO}/{f}"],
                           capture_output=True, text=True, env=env)
        if p.returncode:
            raise ExtractError(f"{f}: macro expansion failed: {p.stderr[-300:]}")
        _EXP[f] = p.stdout
    return _EXP[f]


class FnBlock:
    def __init__(self, file, spec, opts):
        self.file, self.spec, self.opts = file, spec, opts
        self.ret = None
        self.contract = ""
        self.loops = {}      # k -> (itname, text)
        self.closures = {}   # k -> (params, ret, text)
        self.ats = []        # (where, text)
        self.substs = []     # (from, to)
        self.hoists = {}     # k -> name of the hoisted iterable
        self.sig = None      # signature for a slice of the body
        self.slice = [None, None]
        self.nested = False  # the slice lies in one block inside the body
        self.drops = []      # (from, to)
        self.inlined = []    # (from, call of a slice)


class Extractor:
    def __init__(self, template_path):
        self.path = template_path
        self.sources = {}
        self.used_rules = {}
        self.noexit = []
        self.tails = set()   # slices that run to the end of a block
        self.functions = []     # dicts: name, file, lines, shape, text
        self.methods, self.paths, self.strings = [], {}, []
        self.items = []

    def source(self, f):
        if f not in self.sources:
            try:
                if f.startswith("expand:"):
                    self.sources[f] = Source(f, expanded(f[7:]))
                else:
                    self.sources[f] = Source(f"{REPO}/{f}")
            except (OSError, RsxError, IndexError) as e:
                raise ExtractError(f"cannot read {f}: {e}")
        return self.sources[f]

    def note(self, rule, what):
        self.used_rules.setdefault(rule, {})
        self.used_rules[rule][what] = self.used_rules[rule].get(what, 0) + 1

    # ---- template ----
    def run(self, canary=None):
        """canary: None | 'entry' | 'loops' | 'exit' (vacuity variants)."""
        self.used_rules, self.functions, self.items = {}, [], []
        self.methods, self.paths, self.strings = [], {}, []
        out = []
        lines = open(self.path, encoding="utf-8").read().split("\n")
        i = 0
        while i < len(lines):
            ln = lines[i]
            m = re.match(r"\s*//@(\w+)\s*(.*)$", ln)
            if not m:
                out.append(ln)
                i += 1
                continue
            cmd, arg = m.group(1), m.group(2).strip()
            if cmd == "methods":
                self.methods += arg.split()
            elif cmd == "strings":
                self.strings += arg.split()
            elif cmd == "paths":
                for p in arg.split():
                    a, b = p.split("=")
                    self.paths[a] = b
            elif cmd == "include":
                import os
                inc = open(os.path.join(os.path.dirname(self.path), arg), encoding="utf-8").read().split("\n")
                lines[i:i + 1] = inc
                continue
            elif cmd == "require":
                f, pat = re.match(r"(\S+)\s+`(.*)`\s*$", arg).groups()
                want = [x.s for x in lex(pat)]
                toks = [x.s for x in lex(self.source(f).src)]
                if not any(toks[k:k + len(want)] == want for k in range(len(toks) - len(want) + 1)):
                    raise ExtractError(f"{f}: `{pat}` not found (a trusted contract describes exactly this text)")
            elif cmd == "count":
                f, pat, n = re.match(r"(\S+)\s+`(.*)`\s+(\d+)\s*$", arg).groups()
                want = [x.s for x in lex(pat)]
                toks = [x.s for x in lex(self.source(f).src)]
                got = sum(toks[k:k + len(want)] == want for k in range(len(toks) - len(want) + 1))
                if got != int(n):
                    raise ExtractError(f"{f}: `{pat}` occurs {got} times, the trusted contracts describe {n}")
            elif cmd == "rules":
                import rulesgen
                try:
                    out.append(rulesgen.gen(self.source(arg).src))
                except (RsxError, KeyError, IndexError) as ex:
                    raise ExtractError(f"{arg}: rule table: {ex!r}")
            elif cmd == "item":
                out.append(self.item(arg))
            elif cmd == "const":
                out.append(self.const(arg))
            elif cmd == "fn":
                j = i + 1
                while not re.match(r"\s*//@end\b", lines[j]):
                    j += 1
                out.append(self.fn_block(arg, lines[i + 1:j], canary))
                i = j
            else:
                raise ValueError(f"{self.path}:{i+1}: unknown directive {cmd}")
            i += 1
        return "\n".join(out)

    def item(self, arg):
        parts = arg.split()
        f, kind, name = parts[:3]
        derive = None
        for p in parts[3:]:
            if p.startswith("derive="):
                derive = p[7:]
        s = self.source(f)
        try:
            it = s.find(kind, name)
        except RsxError as e:
            raise ExtractError(str(e))
        txt = s.text(it)
        txt = self.strip_attrs(txt)
        txt = self.make_pub(txt, kind)
        self.note("attrs", f"{kind} {name}")
        self.items.append(f"{f}: {kind} {name}")
        return (f"#[derive({derive})]\n" if derive else "") + txt

    def const(self, arg):
        """//@const FILE [Type::]NAME SPEC: the constant, with the postcondition that its view is SPEC"""
        f, spec, want = arg.split(None, 2)
        s = self.source(f)
        try:
            it = s.find("const", spec)
        except RsxError as e:
            raise ExtractError(str(e))
        txt = self.strip_attrs(s.text(it))
        m = re.match(r"\s*(?:pub\s*(?:\([^)]*\)\s*)?)?const\s+(\w+)\s*:\s*(.*?)\s*=(.*);\s*$", txt, re.S)
        if not m:
            raise ExtractError(f"{f}: const {spec} not understood")
        name, ty, ex = m.groups()
        ty = re.sub(r"&\s*(?!'static)", "&'static ", ty)
        self.note("attrs", f"const {spec}")
        self.note("const", f"const {spec}")
        self.items.append(f"{f}: const {spec}")
        return f"pub exec const {name}: {ty} ensures {spec if '::' not in spec else 'Self::' + name}@ == {want} {{ let vx_r: {ty} = {ex}; assert(vx_r@ =~= {want}); vx_r }}"

    @staticmethod
    def strip_attrs(txt):
        toks = lex(txt)
        e = Edit(txt)
        i = 0
        while i < len(toks):
            if toks[i].s == "#" and i + 1 < len(toks) and toks[i + 1].s == "[":
                j = match_close(toks, i + 1)
                e.rep(toks[i].a, toks[j].b, "")
                i = j
            i += 1
        return e.apply()

    @staticmethod
    def make_pub(txt, kind):
        """Visibility does not change behaviour; open everything so specs may mention it."""
        toks = lex(txt)
        e = Edit(txt)
        if toks[0].s != "pub":
            e.ins(toks[0].a, "pub ")
        elif toks[1].s == "(":
            e.rep(toks[1].a, toks[match_close(toks, 1)].b, "")
        if kind == "struct":
            v = match_close(toks, 1) + 1 if toks[0].s == "pub" and toks[1].s == "(" else 0
            b = next((i for i, t in enumerate(toks) if i >= v and t.s in ("{", "(", ";")), None)
            if b is not None and toks[b].s in ("{", "("):
                c = match_close(toks, b)
                i = b + 1
                start = True
                ang = 0
                while i < c:
                    if start and toks[i].s != "#":
                        if toks[i].s != "pub":
                            e.ins(toks[i].a, "pub ")
                        elif toks[i + 1].s == "(" and toks[i + 2].s in ("crate", "super", "self", "in"):
                            e.rep(toks[i + 1].a, toks[match_close(toks, i + 1)].b, "")
                            i = match_close(toks, i + 1)
                        start = False
                    if toks[i].s == "<":
                        ang += 1
                    elif toks[i].s == ">":
                        ang -= 1
                    elif toks[i].s == ">>":
                        ang -= 2
                    elif toks[i].s in ("(", "[", "{"):
                        i = match_close(toks, i)
                    elif toks[i].s == "," and ang == 0:
                        start = True
                    i += 1
        return e.apply()

    # ---- functions ----
    def fn_block(self, arg, body, canary):
        parts = arg.split()
        b = FnBlock(parts[0], parts[1], dict(p.split("=", 1) for p in parts[2:] if "=" in p))
        cur, buf = None, []

        def flush():
            if cur is None:
                return
            txt = "\n".join(buf)
            c, a = cur
            if c == "contract":
                b.contract = txt
            elif c == "loop":
                p = a.split()
                b.loops[int(p[0])] = (p[1] if len(p) > 1 else None, txt)
                for o in p[2:]:
                    if o.startswith("hoist="):
                        b.hoists[int(p[0])] = o[6:]
            elif c == "closure":
                m = re.match(r"(\d+)\s*\((.*?)\)\s*->\s*(.*)$", a) or re.match(r"(\d+)\s*\((.*)\)\s*()$", a)
                b.closures[int(m.group(1))] = (m.group(2), m.group(3) or None, txt)
            elif c == "at":
                b.ats.append((a, txt))
        for ln in body:
            m = re.match(r"\s*//@(\w+)\s*(.*)$", ln)
            if m:
                flush()
                cur, buf = None, []
                c, a = m.group(1), m.group(2).strip()
                if c == "ret":
                    b.ret = a
                elif c == "subst":
                    fr, to = re.match(r"`(.*)`\s*=>\s*`(.*)`\s*$", a).groups()
                    b.substs.append((fr, to))
                elif c == "sig":
                    b.sig = a
                elif c in ("from", "upto"):
                    if a.rstrip().endswith("` nested"):
                        b.nested, a = True, a.rstrip()[:-len(" nested")]
                    b.slice[c == "upto"] = parse_args(a)[0]
                elif c == "noexit":     # every normal path ends in a `return`: the exit canary cannot fail
                    self.noexit.append(b.spec)
                elif c == "drop":
                    b.drops.append(tuple(parse_args(a)))
                elif c == "inlined":
                    b.inlined.append(tuple(parse_args(a)))
                elif c in ("contract", "loop", "closure", "at"):
                    cur = (c, a)
                else:
                    raise ValueError(f"unknown fn directive {c}")
            else:
                buf.append(ln)
        flush()
        return self.emit_fn(b, canary)

    def emit_fn(self, b, canary):
        s = self.source(b.file)
        try:
            it = s.find("fn", b.spec)
        except RsxError as e:
            raise ExtractError(str(e))
        text = s.text(it)
        line0 = s.src.count("\n", 0, it.span()[0]) + 1
        line1 = s.src.count("\n", 0, it.span()[1]) + 1
        orig = text
        if b.sig:
            text = self.cut(text, b)
        for a, z in b.drops:
            text = self.drop(text, a, z, b)
        for a, z in b.inlined:
            text = self.inlined(text, a, z, b)
        text = self.rewrite(text, b)
        try:
            fn = Fn(text)
        except (RsxError, AssertionError, IndexError) as e:
            raise ExtractError(f"{b.spec}: {e}")
        t = fn.toks
        ms = next((i for i in range(fn.body[0] - 1) if t[i].s == "mut" and t[i + 1].s == "self" and t[i - 1].s == "("), None)
        if ms is not None:
            # `mut self` by value: a local that starts as self
            h = Edit(text)
            h.rep(t[ms].a, t[ms + 1].b, "self")
            h.ins(t[fn.body[0]].b, " let mut vx_self = self; ")
            for i in range(fn.body[0] + 1, fn.body[1]):
                if t[i].s == "self":
                    h.rep(t[i].a, t[i].b, "vx_self")
            self.note("mut-self", b.spec)
            text = h.apply()
            fn = Fn(text)
        if b.hoists:
            h, t = Edit(text), fn.toks
            for k, nm in b.hoists.items():
                if k >= len(fn.loops) or fn.loops[k]["in"] is None:
                    raise ExtractError(f"{b.spec}: no for loop {k}")
                lp = fn.loops[k]
                x0, x1 = t[lp["in"] + 1].a, t[lp["open"] - 1].b
                h.ins(t[lp["i"]].a, f"let {nm} = {text[x0:x1].strip()};\n")
                h.rep(x0, x1, nm)
                self.note("hoist-iterable", f"{b.spec}: loop {k}")
            text = h.apply()
            fn = Fn(text)
        t = fn.toks
        e = Edit(text)
        # visibility
        if t[0].s == "pub" and t[1].s == "(":
            e.rep(t[0].a, t[match_close(t, 1)].b, "pub")
        elif t[0].s != "pub" and b.opts.get("vis") != "none":
            e.ins(t[0].a, "pub ")
        if "as" in b.opts:
            e.rep(t[fn.fn_i + 1].a, t[fn.fn_i + 1].b, b.opts["as"])
        ret_txt = "()"
        if fn.ret:
            ret_txt = text[t[fn.ret[0]].a:t[fn.ret[1]].b]
        if b.ret:
            if fn.ret:
                e.ins(t[fn.ret[0]].a, f"({b.ret}: ")
                e.ins(t[fn.ret[1]].b, ")")
            else:
                e.ins(t[fn.par_close].b, f" -> ({b.ret}: ())")
        body_open, body_close = t[fn.body[0]], t[fn.body[1]]
        ATTR = b.opts.get("attr")
        if b.contract.strip():
            e.ins(body_open.a, "\n" + b.contract + "\n", prio=5)
        # loops
        for k, (name, txt) in b.loops.items():
            if k >= len(fn.loops):
                raise ExtractError(f"{b.spec}: loop {k} not found")
            lp = fn.loops[k]
            if name and name != "-":
                if lp["in"] is None:
                    raise ExtractError(f"{b.spec}: loop {k} is not a for loop")
                e.ins(t[lp["in"]].b, f" {name}:")
            elif lp["in"] is not None and name is None:
                raise ExtractError(f"{b.spec}: loop {k} is a for loop")
            e.ins(t[lp["open"]].a, "\n" + txt + "\n", prio=5)
        if len(b.loops) != len(fn.loops) and not b.opts.get("loops") == "any":
            raise ExtractError(f"{b.spec}: {len(fn.loops)} loops, contract covers {len(b.loops)}")
        # closures
        for k, (params, ret, txt) in b.closures.items():
            if k >= len(fn.closures):
                raise ExtractError(f"{b.spec}: closure {k} not found")
            c = fn.closures[k]
            old = text[t[c["p0"]].b:t[c["p1"]].a].strip() if c["p0"] != c["p1"] else ""
            pnames = re.split(r"[,:]", params)[0].strip()
            lets = ""
            olds = old.split(":")[0].strip()
            if olds and olds != pnames and not re.fullmatch(r"(mut\s+)?\w+(\s*,\s*\w+)*", olds):
                lets = f"let {old} = {pnames}; "
                self.note("closure-pattern", f"{b.spec}: |{old}|")
            elif olds and olds != pnames and "," not in olds and "," not in params:
                # keep the source's own parameter name
                params = re.sub(r"^\s*\w+", olds, params)
                txt = re.sub(rf"\b{re.escape(pnames)}\b", olds, txt)
            e.rep(t[c["p0"]].a, t[c["p1"]].b, f"|{params}|" + (f" -> ({ret}) " if ret else "") + "\n" + txt + "\n")
            if ret or txt.strip() or lets:
                e.ins(t[c["b0"]].a, "{ " + lets, prio=9)
                e.ins(t[c["b1"]].b, " }")
        # ghost code
        for where, txt in b.ats:
            pos = self.place(b, fn, where)
            if where.strip() == "start" and canary == "exit":
                # headers stay at the start of the function
                hides = re.findall(r"\bhide\([^()]*\);", txt)
                txt = re.sub(r"\bhide\([^()]*\);", "", txt)
                e.ins(pos, " ".join(hides), prio=-9)
            e.ins(pos, "\n" + txt + "\n", prio=6)
        if canary == "entry":
            e.ins(body_open.b, " proof { assert(false); } ", prio=7)
        elif canary == "loops":
            for lp in fn.loops:
                e.ins(t[lp["open"]].b, " proof { assert(false); } ", prio=7)
        elif canary == "exit":
            e.ins(body_open.b, f" let vx_r: {ret_txt} = {{ ", prio=-5)
            e.ins(body_close.a, " }; proof { assert(false); } vx_r ", prio=50)
        out = e.apply()
        name = b.opts.get("as") or (re.search(r"fn (\w+)", b.sig)[1] if b.sig else b.spec.split("::")[-1])
        self.functions.append({
"name": name, "spec": b.spec + ("#" + name if b.sig else ""), "file": b.file, "lines": [line0, line1],
            "shape": fn.shape(), "calls": self.calls(fn), "tokens": len(lex(orig)), "loops": len(fn.loops),
            "has_contract": bool(b.contract.strip())})
        return (ATTR.replace("~", " ") + "\n" if ATTR else "") + out

    @staticmethod
    def match_at(toks, pat, what, after=0):
        p = [x.s for x in lex(pat)]
        for i in range(after, len(toks) - len(p) + 1):
            if [x.s for x in toks[i:i + len(p)]] == p:
                return i
        raise ExtractError(f"{what}: `{pat}` not found")

    def cut(self, text, b):
        """the statements of the body from one anchor (to before another, or to the end) as a function of the variables they use"""
        toks = lex(text)
        f = Fn(text)
        o, c = f.body
        i = self.match_at(toks, b.slice[0], b.spec) if b.slice[0] else o + 1
        j = self.match_at(toks, b.slice[1], b.spec, i) if b.slice[1] else c
        if b.nested and not b.slice[1]:
            j = self.block_end(toks, i)
            self.tails.add((b.spec, " ".join(t.s for t in lex(b.slice[0])), b.sig.split("(")[0].split()[-1]))
        # both ends must lie directly in the body (or in the same block inside it)
        d = 0
        for k in range(i if b.nested else o + 1, j):
            d += toks[k].s in ("{", "(", "[")
            d -= toks[k].s in ("}", ")", "]")
            if d < 0:
                raise ExtractError(f"{b.spec}: slice is not within one block")
            if k == i - 1 and d:
                raise ExtractError(f"{b.spec}: slice does not start at a statement of the body")
        if d or toks[i - 1].s not in (";", "}", "{"):
            raise ExtractError(f"{b.spec}: slice is not a sequence of statements")
        self.note("slice", f"{b.spec}: " + (f"from `{b.slice[0]}`" if b.slice[0] else "") + (f" up to `{b.slice[1]}`" if b.slice[1] else ""))
        return b.sig + " {" + text[toks[i].a:toks[j - 1].b] + "\n}"

    PURE = {"is_empty", "len", "iter", "clone", "is_some", "is_none", "as_deref", "as_ref", "as_str", "items", "display", "parent", "elapsed", "to_string", "contains", "flatten"}

    @staticmethod
    def block_end(toks, i):
        """the end of the block it starts in"""
        d, j = 0, i
        while d > 0 or toks[j].s not in ("}", ")", "]"):
            d += toks[j].s in ("{", "(", "[")
            d -= toks[j].s in ("}", ")", "]")
            j += 1
        return j

    def inlined(self, text, a, z, b):
        """the rest of a block that is under contract as a slice of its own becomes a call of that slice"""
        toks = lex(text)
        i = self.match_at(toks, a, b.spec)
        j = self.block_end(toks, i)
        if (b.spec, " ".join(t.s for t in lex(a)), z.split("(")[0].strip()) not in self.tails:
            raise ExtractError(f"{b.spec}: `{a}` is not the start of a slice `{z}`")
        if toks[i - 1].s not in (";", "}", "{"):
            raise ExtractError(f"{b.spec}: slice is not a sequence of statements")
        self.note("inlined", f"{b.spec}: from `{a}` as `{z}`")
        return text[:toks[i].a] + z + text[toks[j - 1].b:]

    def drop(self, text, a, z, b):
        """statements that only print: no exit from them, no change to a variable used later"""
        toks = lex(text)
        i = self.match_at(toks, a, b.spec)
        j = self.match_at(toks, z, b.spec, i + 1)
        d = 0
        for k in range(i, j):
            d += toks[k].s in ("{", "(", "[")
            d -= toks[k].s in ("}", ")", "]")
            if d < 0:
                raise ExtractError(f"{b.spec}: statements at `{a}` not balanced")
            if toks[k].s in ("return", "break", "continue", "?"):
                raise ExtractError(f"{b.spec}: the statements to be dropped at `{a}` can leave the function")
        if d:
            raise ExtractError(f"{b.spec}: statements at `{a}` not balanced")
        before = {t.s for t in toks[:i] if t.k == "id"}
        later = {t.s for t in toks[j:] if t.k == "id"}
        for k in range(i, j):
            t = toks[k]
            if t.k != "id" or t.s not in later or t.s not in before or toks[k - 1].s in (".", "::"):
                continue
            nx = toks[k + 1].s
            bad = toks[k - 1].s == "mut" or nx in ("=", "+=", "-=") or nx == "[" or (
                nx == "." and toks[k + 2].k == "id" and toks[k + 3].s == "(" and toks[k + 2].s not in self.PURE)
            if bad and toks[k - 1].s != "let" and not (toks[k - 1].s == "mut" and toks[k - 2].s == "let"):
                raise ExtractError(f"{b.spec}: the statements to be dropped at `{a}` may change `{t.s}`")
        self.note("drop", f"{b.spec}: from `{a}` to before `{z}`")
        return text[:toks[i].a] + text[toks[j].a:]

    def place(self, b, fn, where):
        t = fn.toks
        if where == "start":
            return t[fn.body[0]].b
        if where == "end":
            return t[fn.body[1]].a
        m = re.match(r"loop (\d+) (start|end)$", where)
        if m:
            k = int(m.group(1))
            if k >= len(fn.loops):
                raise ExtractError(f"{b.spec}: loop {k} not found")
            lp = fn.loops[k]
            return t[lp["open"]].b if m.group(2) == "start" else t[lp["close"]].a
        m = re.match(r"(after|before) loop (\d+)$", where)
        if m:
            k = int(m.group(2))
            if k >= len(fn.loops):
                raise ExtractError(f"{b.spec}: loop {k} not found")
            lp = fn.loops[k]
            return t[lp["close"]].b if m.group(1) == "after" else t[lp["i"]].a
        m = re.match(r"(before|after) let (\w+)(?: #(\d+))?$", where)
        if m:
            nth = int(m.group(3) or 0)
            hits = [i for i in range(fn.body[0], fn.body[1]) if t[i].s == "let" and (
                t[i + 1].s == m.group(2) or t[i + 1].s == "mut" and t[i + 2].s == m.group(2))]
            if len(hits) <= nth:
                raise ExtractError(f"{b.spec}: anchor `let {m.group(2)}` not found")
            i = hits[nth]
            if m.group(1) == "before":
                return t[i].a
            while t[i].s != ";":
                if t[i].s in ("(", "[", "{"):
                    i = match_close(t, i)
                i += 1
            return t[i].b
        m = re.match(r"(before|after) (?:#(\d+) )?`(.*)`$", where)
        if m:
            nth = int(m.group(2) or 0)
            pat = [x.s for x in lex(m.group(3))]
            hits = []
            for i in range(fn.body[0], fn.body[1] - len(pat) + 1):
                if [x.s for x in t[i:i + len(pat)]] == pat:
                    hits.append(i)
            if len(hits) <= nth:
                raise ExtractError(f"{b.spec}: anchor `{m.group(3)}` not found")
            i = hits[nth]
            return t[i].a if m.group(1) == "before" else t[i + len(pat) - 1].b
        raise ValueError(f"bad place {where}")

    @staticmethod
    def calls(fn):
        out = set()
        t = fn.toks
        for i in range(fn.body[0], fn.body[1]):
            if t[i].k == "id" and t[i + 1].s in ("(", "!", "::") and t[i].s not in (
                    "if", "while", "match", "for", "in", "return", "Some", "Ok", "Err"):
                out.add(t[i].s)
        return sorted(out)

    def rewrite(self, text, b):
        # repeated passes: substitutions may change token positions
        for fr, to in b.substs:
            text = self.subst(text, fr, to, b.spec)
        text = self.str_match(text, b)
        text = self.let_chains(text, b)
        text = self.continues(text, b)
        toks = lex(text)
        e = Edit(text)
        i = 0
        while i < len(toks):
            t = toks[i]
            # attributes inside functions and inner attributes
            if t.s == "#" and i + 1 < len(toks) and toks[i + 1].s == "[" and (i == 0 or toks[i - 1].s in (
                    "{", "}", ";", ",", ")", "]")):
                j = match_close(toks, i + 1)
                if toks[i + 2].s == "cfg":      # decided by rustc for this target, as in the build
                    i = j + 1
                    continue
                e.rep(t.a, toks[j].b, "")
                self.note("attrs", "inner")
                i = j + 1
                continue
            if t.s == "matches" and toks[i + 1].s == "!" and toks[i + 2].s == "(":
                j = match_close(toks, i + 2)
                k = next((x for x in range(i + 3, j) if toks[x].s == ","), None)
                alts = [x.s for x in toks[k + 1:j]] if k else []
                if k and alts and all(x.k == "str" for x in toks[k + 1:j:2]) and all(x == "|" for x in alts[1::2]):
                    sc = text[toks[i + 3].a:toks[k - 1].b]
                    e.rep(t.a, toks[j].b, "(" + " || ".join(f"{sc} == {x}" for x in alts[::2]) + ")")
                    self.note("str-match", b.spec)
                    i = j + 1
                    continue
            if t.s == "tracing" and toks[i + 1].s == "::" and toks[i + 3].s == "!":
                j = match_close(toks, i + 4)
                if toks[j + 1].s == ";":
                    j += 1
                    e.rep(t.a, toks[j].b, "")
                else:
                    e.rep(t.a, toks[j].b, "()")
                self.note("drop-tracing", b.spec)
                i = j + 1
                continue
            if t.k == "id" and t.s == "format" and toks[i + 1].s == "!":
                j = match_close(toks, i + 2)
                e.rep(t.a, toks[j].b, "vx_format()")
                self.note("format", b.spec)
                i = j + 1
                continue
            if t.k == "id" and t.s in ("println", "eprintln", "print", "eprint") and toks[i + 1].s == "!":
                j = match_close(toks, i + 2)
                if toks[j + 1].s == ";":
                    j += 1
                    e.rep(t.a, toks[j].b, "")
                    self.note("drop-print", b.spec)
                    i = j + 1
                    continue
            if t.k == "id" and t.s in ("anyhow", "bail", "unreachable", "panic", "todo", "unimplemented") \
                    and toks[i + 1].s == "!":
                j = match_close(toks, i + 2)
                start = t.a
                if i >= 2 and toks[i - 1].s == "::" and toks[i - 2].s == "anyhow":
                    start = toks[i - 2].a
                if t.s == "anyhow":
                    e.rep(start, toks[j].b, "vx_anyhow()")
                    self.note("anyhow", b.spec)
                elif t.s == "bail":
                    e.rep(start, toks[j].b, "return Err(vx_anyhow())")
                    self.note("bail", b.spec)
                else:
                    e.rep(start, toks[j].b, "vx_panic()")
                    self.note("unreachable", b.spec)
                i = j + 1
                continue
            if t.k == "id" and i and toks[i - 1].s == "." and t.s in self.methods and i + 1 < len(toks) and toks[i + 1].s in ("(", "::"):
                e.rep(t.a, t.b, "vx_" + t.s)
                self.note("method", t.s)
            for p in self.strings:
                pt = [x.s for x in lex(p)]
                if [x.s for x in toks[i:i + len(pt)]] == pt and toks[i + len(pt)].s == "[" and (
                        i == 0 or toks[i - 1].s not in ("::", ".")):
                    e.ins(toks[i + len(pt) - 1].b, ".as_str()")
                    self.note("string-index", f"{p}[..]")
            for p, to in self.paths.items():
                pt = [x.s for x in lex(p)]
                if [x.s for x in toks[i:i + len(pt)]] == pt and (i == 0 or toks[i - 1].s not in ("::", ".")):
                    e.rep(t.a, toks[i + len(pt) - 1].b, to)
                    self.note("path", f"{p} -> {to}")
                    i += len(pt) - 1
                    break
            i += 1
        return e.apply()

    def let_chains(self, text, b):
        """`if A && let P = E && C { B }` without else becomes nested ifs."""
        while True:
            toks = lex(text)
            done = True
            for i, t in enumerate(toks):
                if t.s != "if" or t.k != "id":
                    continue
                j, ands, lets = i + 1, [], toks[i + 1].s == "let"
                while j < len(toks) and toks[j].s != "{":
                    if toks[j].s in ("(", "["):
                        j = match_close(toks, j)
                    elif toks[j].s == "&&":
                        ands.append(j)
                        lets = lets or toks[j + 1].s == "let"
                    j += 1
                if not lets or not ands or j >= len(toks):
                    continue
                c = match_close(toks, j)
                if c + 1 < len(toks) and toks[c + 1].s == "else":
                    continue
                e = Edit(text)
                for a in ands:
                    e.rep(toks[a].a, toks[a].b, "{ if")
                e.ins(toks[c].b, " }" * len(ands))
                if toks[c - 1].s == ";" and toks[c - 2].s == "continue" and toks[i - 1].s in ("{", ";", "}"):
                    # in a for body: `if CHAIN { A; continue; } REST` -> a flag set in A guards REST
                    o = self.for_body(toks, i)
                    if o is not None:
                        e.ins(t.a, "let mut vx_more = true; ")
                        e.rep(toks[c - 2].a, toks[c - 1].b, "vx_more = false;")
                        e.ins(toks[c].b, " if vx_more {")
                        e.ins(toks[match_close(toks, o)].a, "}")
                        self.note("continue", b.spec)
                text = e.apply()
                self.note("let-chain", b.spec)
                done = False
                break
            if done:
                return text

    @staticmethod
    def for_body(toks, i):
        """the `{` of the for loop whose body is the innermost block around token i"""
        opens = []
        for k in range(i):
            if toks[k].s in ("{", "(", "["):
                opens.append(k)
            elif toks[k].s in ("}", ")", "]"):
                opens.pop()
        if not opens or toks[opens[-1]].s != "{":
            return None
        k, d = opens[-1] - 1, 0
        while k >= 0 and not (d == 0 and toks[k].s in (";", "{", "}")):
            d += toks[k].s in (")", "]")
            d -= toks[k].s in ("(", "[")
            k -= 1
        return opens[-1] if toks[k + 1].s == "for" else None

    def str_match(self, text, b):
        """`match E { "lit" => X, .. _ => Y }` becomes an if chain on `E == "lit"`."""
        toks = lex(text)
        for i, t in enumerate(toks):
            if t.s != "match" or t.k != "id":
                continue
            j = i + 1
            while toks[j].s != "{":
                if toks[j].s in ("(", "["):
                    j = match_close(toks, j)
                j += 1
            if toks[j + 1].k != "str":
                continue
            c = match_close(toks, j)
            scrut = text[toks[i + 1].a:toks[j - 1].b]
            out, k, closed = [], j + 1, False
            while k < c:
                pats = []
                while toks[k].s != "=>":
                    if toks[k].k == "str":
                        pats.append(f"{scrut} == {toks[k].s}")
                    elif toks[k].s == "_":
                        pats.append(None)
                    elif toks[k].s != "|":
                        raise ExtractError(f"{b.spec}: match arm `{toks[k].s}` not understood")
                    k += 1
                e0 = k + 1
                k = e0
                while k < c and toks[k].s != ",":
                    if toks[k].s in ("(", "[", "{"):
                        blk = toks[k].s == "{" and k == e0
                        k = match_close(toks, k)
                        if blk and toks[k + 1].s != ",":
                            k += 1
                            break
                    k += 1
                body = text[toks[e0].a:toks[k - 1].b]
                if k < c and toks[k].s == ",":
                    k += 1
                if None in pats:
                    out.append(f"{{ {body} }}")
                    closed = True
                    break
                out.append(f"if {' || '.join(pats)} {{ {body} }} else ")
            if not closed:
                raise ExtractError(f"{b.spec}: match on texts without default")
            e = Edit(text)
            e.rep(t.a, toks[c].b, "".join(out))
            self.note("str-match", b.spec)
            return e.apply()
        return text

    def continues(self, text, b):
        """for body `if C { A; continue; } REST` becomes `if C { A; } else { REST }`."""
        while True:
            toks = lex(text)
            done = True
            for i, t in reversed(list(enumerate(toks[:-2]))):
                if t.s == "continue" and t.k == "id" and self.continue_last(toks, i):
                    # nothing of the for body is left to run
                    e = Edit(text)
                    e.rep(t.a, t.b, "{}")
                    text = e.apply()
                    self.note("continue", b.spec)
                    done = False
                    break
                if t.s == "continue" and t.k == "id" and toks[i + 1].s in (",", "}"):
                    new = self.continue_arm(text, toks, i)
                    if new:
                        text = new
                        self.note("continue", b.spec)
                        done = False
                        break
                if not (t.s == "continue" and t.k == "id" and toks[i + 1].s == ";" and toks[i + 2].s == "}"):
                    continue
                # the innermost block is the if; the block around it must be the body of a for loop
                opens = []
                for k in range(i):
                    if toks[k].s in ("{", "(", "["):
                        opens.append(k)
                    elif toks[k].s in ("}", ")", "]"):
                        opens.pop()
                if len(opens) < 2 or toks[opens[-1]].s != "{" or toks[opens[-2]].s != "{":
                    continue
                o_if, o_for = opens[-1], opens[-2]
                # find the keyword of the outer block
                k, d = o_for - 1, 0
                while k >= 0 and not (d == 0 and toks[k].s in (";", "{", "}")):
                    d += toks[k].s in (")", "]")
                    d -= toks[k].s in ("(", "[")
                    k -= 1
                if toks[k + 1].s != "for":
                    continue
                k, d = o_if - 1, 0
                while k > o_for and not (d == 0 and toks[k].s in (";", "{", "}", "=")):
                    d += toks[k].s in (")", "]")
                    d -= toks[k].s in ("(", "[")
                    k -= 1
                c_if, c_for = i + 2, match_close(toks, o_for)
                if toks[k + 1].s == "else" and toks[k].s == "}" and toks[c_if + 1].s == ";":
                    q, d = o_if - 1, 0
                    while q > o_for and not (d == 0 and toks[q].s == ";"):
                        d += toks[q].s in (")", "]", "}")
                        d -= toks[q].s in ("(", "[", "{")
                        q -= 1
                    if toks[q + 1].s == "let":
                        new = self.continue_chain(text, toks, q + 1, i, c_for)
                        if new:
                            text = new
                            self.note("continue", b.spec)
                            done = False
                            break
                if toks[k + 1].s == "let" or (toks[o_if - 1].s == "else" and toks[k].s == "=" and toks[c_if + 1].s == ";"):
                    # let P = E else { A; continue; }; REST
                    j = o_if - 1
                    st = o_for + 1
                    q, d = o_if - 1, 0
                    while q > o_for and not (d == 0 and toks[q].s in (";", "{", "}")):
                        d += toks[q].s in (")", "]")
                        d -= toks[q].s in ("(", "[")
                        q -= 1
                    if toks[q + 1].s != "let" or toks[j].s != "else":
                        continue
                    els = text[toks[o_if].b:toks[i].a]
                    e = Edit(text)
                    e.rep(toks[q + 1].a, toks[q + 1].b, "if let")
                    e.rep(toks[j].a, toks[c_if + 1].b, "{")
                    e.ins(toks[c_for].a, "} else {" + els + "}")
                    text = e.apply()
                    self.note("continue", b.spec)
                    done = False
                    break
                if toks[k + 1].s not in ("if", "else") and not any(x.s == "if" for x in toks[k + 1:o_if]):
                    continue
                e = Edit(text)
                e.rep(toks[i].a, toks[i + 1].b, "")
                if toks[c_if + 1].s == "else":
                    continue
                e.ins(toks[c_if].b, " else {")
                e.ins(toks[c_for].a, "}")
                text = e.apply()
                self.note("continue", b.spec)
                done = False
                break
            if done:
                return text

    def continue_last(self, toks, i):
        """is this `continue` an arm of a match (or the last statement of an if) that is itself last in the body of a for?"""
        def head(o):
            k, d = o - 1, 0
            while k >= 0 and not (d == 0 and toks[k].s in (";", "{", "}", "=>", ",")):
                d += toks[k].s in (")", "]")
                d -= toks[k].s in ("(", "[")
                k -= 1
            return k + 1
        opens = []
        for k in range(i):
            if toks[k].s in ("{", "(", "["):
                opens.append(k)
            elif toks[k].s in ("}", ")", "]"):
                opens.pop()
        start, end, first = i, i, True
        while opens:
            o = opens.pop()
            if toks[o].s != "{":
                return False
            h, c = head(o), match_close(toks, o)
            kw = toks[h].s
            if kw == "match":
                if toks[start - 1].s != "=>":
                    return False
            elif kw in ("if", "for"):
                n = end + 1
                if toks[n].s == ";":
                    n += 1
                if n != c:
                    return False
                if kw == "for":
                    return not first
                if toks[c + 1].s == "else" or toks[h - 1].s == "else":
                    return False
            else:
                return False
            start, end, first = h, c, False
        return False

    def continue_chain(self, text, toks, let, i, c_for):
        """`let X = if A { V } .. else { S; continue; }; REST` becomes `if let Some(X) = if A { Some({ V }) } .. else { S; None } { REST }`."""
        eq = next((j for j in range(let, i) if toks[j].s == "="), None)
        if eq is None or toks[eq + 1].s != "if":
            return None
        e = Edit(text)
        j = eq + 1
        while True:
            d = 0
            while not (d == 0 and toks[j].s == "{"):
                d += toks[j].s in ("(", "[")
                d -= toks[j].s in (")", "]")
                j += 1
                if j >= c_for:
                    return None
            c = match_close(toks, j)
            if j < i < c:
                if i + 2 != c:
                    return None
                e.rep(toks[i].a, toks[i + 1].b, "None")
            else:
                e.ins(toks[j].b, " Some({")
                e.ins(toks[c].a, "})")
            if toks[c + 1].s != "else":
                break
            j = c + 2
        if toks[c + 1].s != ";" or not i < c:
            return None
        name = text[toks[let + 1].a:toks[eq].a].strip()
        e.rep(toks[let].a, toks[eq].b, "let vx_chain =")
        e.ins(toks[c + 1].b, f" if let Some({name}) = vx_chain {{")
        e.ins(toks[c_for].a, "}")
        return e.apply()

    def continue_arm(self, text, toks, i):
        """for body `let X = match E { A => V, B => continue }; REST` becomes `match E { A => { let X = V; REST } B => {} }`."""
        opens = []
        for k in range(i):
            if toks[k].s in ("{", "(", "["):
                opens.append(k)
            elif toks[k].s in ("}", ")", "]"):
                opens.pop()
        if len(opens) < 2 or toks[opens[-1]].s != "{" or toks[opens[-2]].s != "{":
            return None
        o_m, o_for = opens[-1], opens[-2]
        k, d = o_for - 1, 0
        while k >= 0 and not (d == 0 and toks[k].s in (";", "{", "}")):
            d += toks[k].s in (")", "]")
            d -= toks[k].s in ("(", "[")
            k -= 1
        if toks[k + 1].s != "for":
            return None
        k, d = o_m - 1, 0
        while k > o_for and not (d == 0 and toks[k].s in (";", "{", "}")):
            d += toks[k].s in (")", "]")
            d -= toks[k].s in ("(", "[")
            k -= 1
        let, c_m, c_for = k + 1, match_close(toks, o_m), match_close(toks, o_for)
        if toks[let].s != "let" or toks[c_m + 1].s != ";":
            return None
        eq = next((j for j in range(let, o_m) if toks[j].s == "="), None)
        if eq is None or toks[eq + 1].s != "match":
            return None
        # the arms
        arms, j = [], o_m + 1
        while j < c_m:
            a, d = j, 0
            while not (d == 0 and toks[j].s == "=>"):
                d += toks[j].s in ("(", "[", "{")
                d -= toks[j].s in (")", "]", "}")
                j += 1
                if j >= c_m:
                    return None
            v, d = j + 1, 0
            j += 1
            while j < c_m and not (d == 0 and toks[j].s == ","):
                d += toks[j].s in ("(", "[", "{")
                d -= toks[j].s in (")", "]", "}")
                j += 1
            arms.append((text[toks[a].a:toks[v - 2].b], text[toks[v].a:toks[j - 1].b], v == i))
            j += 1
        if len(arms) != 2 or [x[2] for x in arms].count(True) != 1:
            return None
        rest = text[toks[c_m + 1].b:toks[c_for].a]
        head = text[toks[let].a:toks[eq].b]
        out = text[toks[eq + 1].a:toks[o_m].b]
        for pat, val, cont in arms:
            out += f" {pat} => " + ("{ }" if cont else "{ " + head + " " + val + ";" + rest + "}")
        return text[:toks[let].a] + out + " }" + text[toks[c_for].a:]

    def subst(self, text, fr, to, spec):
        toks = lex(text)
        pat = [x.s for x in lex(fr)]
        e = Edit(text)
        n = 0
        i = 0
        while i + len(pat) <= len(toks):
            if [x.s for x in toks[i:i + len(pat)]] == pat:
                e.rep(toks[i].a, toks[i + len(pat) - 1].b, to)
                n += 1
                i += len(pat)
            else:
                i += 1
        if n == 0:
            raise ExtractError(f"{spec}: substitution source `{fr}` not found")
        self.note("subst", f"{spec}: `{fr}` => `{to}`")
        return e.apply()


if __name__ == "__main__":
    import sys
    x = Extractor(sys.argv[1])
    print(x.run(sys.argv[2] if len(sys.argv) > 2 else None))
