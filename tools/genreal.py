"""Generated harness modules: verbatim text of /repo's functions (no rewriting).

A `harness/gen/NAME.rs` template is ordinary Rust with directives
  //@real FILE KIND NAME             the item, verbatim
  //@methods FILE Type m1 m2 ...     methods of an impl, verbatim (inside an `impl Type {` of the template)
  //@slice FILE FN || SIG || `from` [`upto`] || `a` => `b` || + `tail`     consecutive statements of FN as a function
  //@else TEXT                         (next line) used instead when a //@slice cannot be cut any more
  //@helpers FILE                    every other local function of FILE those functions call, transitively
"""
import os
import re
from rsx import Source, lex, RsxError
from extract import ExtractError, Extractor, FnBlock, REPO, parse_args

_cache = {}


def source(f):
    if f not in _cache:
        try:
            _cache[f] = Source(f"{REPO}/{f}")
        except (OSError, RsxError, IndexError) as e:
            raise ExtractError(f"cannot read {f}: {e}")
    return _cache[f]


def called(text):
    t = lex(text)
    return {t[i].s for i in range(len(t) - 1) if t[i].k == "id" and t[i + 1].s in ("(", "::", "!") or
            (t[i].k == "id" and i and t[i - 1].s in ("(", ",", "."))}


def gen_one(path):
    lines = open(path, encoding="utf-8").read().split("\n")
    out, used, texts = [], {}, {}
    for k, ln in enumerate(lines):
        m = re.match(r"\s*//@(\w+)\s+(.*)$", ln)
        if not m:
            out.append(ln)
            continue
        cmd, a = m.group(1), m.group(2).split()
        if cmd == "else":
            continue
        mark = len(out)
        try:
            directive(path, m, cmd, a, out, used, texts)
        except ExtractError:
            # the statements are not where they were: the template's reading of them, if it has one
            if k + 1 == len(lines) or not lines[k + 1].strip().startswith("//@else "):
                raise
            del out[mark:]
            out.append(lines[k + 1].strip()[len("//@else "):])
    return "\n".join(out)


def directive(path, m, cmd, a, out, used, texts):
    if True:
        if cmd == "real":
            f, kind, name = a[0], a[1], a[2]
            s = source(f)
            try:
                it = s.find(kind, name)
            except RsxError as e:
                raise ExtractError(str(e))
            txt = s.text(it, attrs="noattrs" not in a)
            used.setdefault(f, set()).add((kind, name))
            texts[f] = texts.get(f, "") + "\n" + txt
            out.append(txt if txt.lstrip().startswith("pub") or kind in ("impl", "macro", "use") or "#" == txt.lstrip()[:1] or "//" == txt.lstrip()[:2] else "pub(crate) " + txt)
        elif cmd == "slice":
            # //@slice FILE FN || signature || `from` [`upto`] [|| `a` => `b` ...]
            parts = [x.strip() for x in m.group(2).split("||")]
            f, name = parts[0].split()
            s = source(f)
            try:
                it = s.find("fn", name)
            except RsxError as e:
                raise ExtractError(str(e))
            b = FnBlock(f, name, {})
            b.sig = parts[1]
            sl = parse_args(parts[2])
            b.slice = [sl[0] or None, sl[1] if len(sl) > 1 else None]
            x = Extractor("")
            txt = x.cut(s.text(it), b)
            tail = ""
            for r in parts[3:]:
                if r.startswith("+"):
                    tail = parse_args(r)[0]
                    continue
                fr, to = parse_args(r)
                txt = x.subst(txt, fr, to, name)
            if tail:
                txt = txt.rstrip()[:-1] + tail + "\n}"
            texts[f] = texts.get(f, "") + "\n" + txt
            out.append(txt)
        elif cmd == "methods":
            f, ty = a[0], a[1]
            s = source(f)
            todo, done = list(a[2:]), set()
            while todo:
                mname = todo.pop(0)
                if mname in done:
                    continue
                done.add(mname)
                try:
                    it = s.find("fn", f"{ty}::{mname}")
                except RsxError as e:
                    raise ExtractError(str(e))
                txt = s.text(it, attrs=False)
                out.append(txt if txt.startswith("pub") else "pub(crate) " + txt)
                texts[f] = texts.get(f, "") + "\n" + txt
                # methods of the same type it calls
                for c in called(txt):
                    try:
                        s.find("fn", f"{ty}::{c}")
                    except RsxError:
                        continue
                    if c not in done:
                        todo.append(c)
        elif cmd == "helpers":
            f = a[0]
            s = source(f)
            have = {n for k, n in used.get(f, set())}
            work = called(texts.get(f, ""))
            # free functions, consts, types and their impls of the same file
            progress = True
            while progress:
                progress = False
                ids = {t.s for t in lex(texts.get(f, "")) if t.k == "id"}
                for it in s.items:
                    if it.path or s.in_test(it) or it.name in have or it.kind not in ("fn", "const", "static", "struct", "enum", "type", "macro"):
                        continue
                    if it.name in ids and it.name not in a[1:]:
                        txt = s.text(it, attrs=True)
                        out.append(txt)
                        texts[f] += "\n" + txt
                        have.add(it.name)
                        progress = True
        else:
            raise ValueError(f"{path}: {cmd}")


def generate(verif, names, outdir):
    os.makedirs(outdir, exist_ok=True)
    for n in names:
        txt = gen_one(os.path.join(verif, "harness", "gen", n + ".rs"))
        p = os.path.join(outdir, n + ".rs")
        if not os.path.exists(p) or open(p).read() != txt:
            open(p, "w").write(txt)
