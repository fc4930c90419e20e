"""Spec functions generated from the declaration table of rule_set.rs (the input of declare_rules!)."""
from rsx import lex, match_close, RsxError


def parse(src):
    toks = lex(src)
    best = None
    for i, t in enumerate(toks):
        if t.s == "declare_rules" and toks[i + 1].s == "!" and toks[i + 2].s == "{" and toks[i + 3].s != "@":
            best = i + 2
    if best is None:
        raise RsxError("declare_rules! table not found")
    end = match_close(toks, best)
    i, rules = best + 1, []
    while i < end:
        while toks[i].s == "#":
            i = match_close(toks, i + 1) + 1
        v = toks[i].s
        if toks[i + 1].s != "=>" or toks[i + 2].s != "{":
            raise RsxError("declare_rules! entry not understood")
        c = match_close(toks, i + 2)
        f, k = {}, i + 3
        while k < c:
            name = toks[k].s
            j = k + 2
            while j < c and toks[j].s != ",":
                if toks[j].s in ("(", "[", "{"):
                    j = match_close(toks, j)
                j += 1
            f[name] = src[toks[k + 2].a:toks[j - 1].b]
            k = j + 1
        cats = [x.s for x in lex(f["categories"]) if x.k == "id"]
        rules.append(dict(v=v, name=f["name"], cats=cats, default=f["default"], fix=f["fix"], min=f["min_r_version"]))
        i = c + 1
        if i < end and toks[i].s == ",":
            i += 1
    return rules


def tree(names, depth=0):
    """nested ifs mapping each text to its number; names: [(text, number)]"""
    if len(names) == 1:
        return str(names[0][1])
    # best split: by length, else by a character
    best = None
    for L in sorted({len(n) for n, _ in names}):
        a = [x for x in names if len(x[0]) <= L]
        b = [x for x in names if len(x[0]) > L]
        if a and b:
            s = abs(len(a) - len(b))
            if best is None or s < best[0]:
                best = (s, f"s.len() <= {L}", a, b)
    if best is None:
        for p in range(len(names[0][0])):
            for ch in sorted({n[p] for n, _ in names}):
                a = [x for x in names if x[0][p] == ch]
                b = [x for x in names if x[0][p] != ch]
                if a and b:
                    s = abs(len(a) - len(b))
                    if best is None or s < best[0]:
                        best = (s, f"s[{p}] == '{ch}'", a, b)
    if best is None:
        # two rules of the same name: give the first one (the lemma then fails)
        return str(names[0][1])
    return f"if {best[1]} {{ {tree(best[2])} }} else {{ {tree(best[3])} }}"


def gen(src):
    R = parse(src)
    o = ["impl Rule {"]

    def m(name, ty, f):
        o.append(f"    pub open spec fn {name}(self) -> {ty} {{ match self {{ " + ", ".join(f"Rule::{r['v']} => {f(r)}" for r in R) + " } }")
    m("d_name", "Seq<char>", lambda r: r["name"] + "@")
    m("d_categories", "Seq<Category>", lambda r: "seq![" + ", ".join("Category::" + c for c in r["cats"]) + "]")
    m("d_default", "DefaultStatus", lambda r: "DefaultStatus::" + r["default"])
    m("d_fix", "FixStatus", lambda r: "FixStatus::" + r["fix"])
    idx = {r["v"]: i for i, r in enumerate(R)}
    m("d_index", "int", lambda r: str(idx[r["v"]]))
    m("d_min", "Option<(u32, u32, u32)>", lambda r: "core::option::Option::" + r["min"] if r["min"] == "None" else r["min"].replace("Some(", "core::option::Option::Some(").replace("((", "((").replace(",", "u32,").replace("))", "u32))"))
    o.append("}")
    o.append("pub open spec fn d_all() -> Seq<Rule> { seq![" + ", ".join("Rule::" + r["v"] for r in R) + "] }")
    o.append("pub open spec fn d_find(s: Seq<char>) -> int { " + tree([(r["name"].strip('"'), i) for i, r in enumerate(R)]) + " }")
    o.append("""/// a rule's name determines its place in the table
pub proof fn lemma_name_index(r: Rule)
    ensures d_find(r.d_name()) == r.d_index(),
{
    match r {""")
    for i, r in enumerate(R):
        o.append(f"        Rule::{r['v']} => {{ reveal_strlit({r['name']}); assert(d_find({r['name']}@) == {i}); }}")
    o.append("    }\n}")
    o.append("""/// the table lists every rule exactly once
pub proof fn lemma_all_index(r: Rule)
    ensures 0 <= r.d_index() < d_all().len(), d_all()[r.d_index()] == r,
{
    match r {""")
    for i, r in enumerate(R):
        o.append(f"        Rule::{r['v']} => {{ assert(d_all()[{i}] == Rule::{r['v']}); }}")
    o.append("    }\n}")
    o.append(f"""pub proof fn lemma_index_all(i: int)
    requires 0 <= i < d_all().len(),
    ensures d_all()[i].d_index() == i,
{{
    assert(d_all().len() == {len(R)});""")
    for i, r in enumerate(R):
        o.append(f"    if i == {i} {{ assert(d_all()[{i}] == Rule::{r['v']}); }}")
    o.append("}")
    o.append("""/// a rule's name is not empty and neither starts nor ends with white space
pub proof fn lemma_name_clean(r: Rule)
    ensures r.d_name().len() > 0, !ws(r.d_name()[0]), !ws(r.d_name().last()),
{
    match r {""")
    for i, r in enumerate(R):
        o.append(f"        Rule::{r['v']} => {{ reveal_strlit({r['name']}); }}")
    o.append("    }\n}")
    return "\n".join(o)
