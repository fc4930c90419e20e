"""DESIGN.md from design.tmpl.md, properties.jsonl, props.py, the oracles' rules, known_findings.txt and seeded/."""
import glob, json, os, re
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]


def rules(pat):
    out = []
    for f in sorted(glob.glob(f"{V}/{pat}")):
        out += re.findall(r'cx\.rule\(\s*"((?:[^"\\]|\\.)*)"', open(f).read())
    return [r.replace('\\"', '"') for r in out]


def functions(t):
    seen, out = set(), []

    def go(f):
        if f in seen:
            return
        seen.add(f)
        for l in open(f"{V}/specs/{f}").read().splitlines():
            m = re.match(r"\s*//@include (\S+)", l)
            if m:
                go(m[1])
            m = re.match(r"\s*//@fn (\S+) (\S+)(.*)", l)
            if m:
                n = m[2].split("::", 0)[-1]
                if n not in out:
                    out.append(n)
    go(t + ".rs")
    return out


sec = []
for p in props:
    i = p["id"]
    if i not in PROPS:
        continue
    d = PROPS[i]
    c, r = rules(f"harness/*/src/bin/{i.lower()}.rs"), rules(f"real/e2e/src/bin/{i.lower()}.rs")
    fs = functions(d["template"])
    s = f"### {i}: {p['title']}\n\n{p['statement']}\n\n*Decided by:* {d['note']}\n\n"
    s += f"*Functions under contract* (specs/{d['template']}.rs): {', '.join('`' + f + '`' for f in fs)}.\n\n"
    s += "*Assumed:* " + "; ".join(d["assumptions"]) + ".\n\n"
    s += "*Oracle (bounded):* " + " — ".join((["code: " + " / ".join(c)] if c else []) + (["program: " + " / ".join(r)] if r else [])) + "\n"
    sec.append(s)
na = "\n".join(f"* **{p['id']}** ({p['title']}): {NOT_APPLICABLE[p['id']]}." for p in props if p["id"] in NOT_APPLICABLE)
de = []
for l in open(f"{V}/known_findings.txt"):
    m = re.match(r"(fixed): property=(\S+) (\S+) (.*)", l)
    if m:
        de.append(f"* {m[2]}, repaired in {m[3]}: {m[4]}")
    m = re.match(r"known: property=(\S+) case=(.*) :: (.*)", l)
    if m:
        de.append(f"* {m[1]}, **known, not repaired** (case `{m[2]}`): {m[3]}")
se = ["| change | breaks | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(f"{V}/tools/caught.json")) if os.path.exists(f"{V}/tools/caught.json") else {}
for f in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    n = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    se.append(f"| {n} | {m['what_it_breaks']} | {m['needs']} | {caught.get(n, m['property'])} |")
t = open(f"{V}/tools/design.tmpl.md").read()
for k, v in (("PROPS", "\n".join(sec)), ("NA", na), ("DEFECTS", "\n".join(de)), ("SEEDED", "\n".join(se))):
    t = t.replace(f"@@{k}@@", v)
open(f"{V}/DESIGN.md", "w").write(t)
