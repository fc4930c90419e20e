#!/usr/bin/env python3
"""check.py PID : decide one property on /repo's current tree.

1. extract the functions under contract from /repo and let Verus discharge
   every obligation (unbounded, function by function);
2. vacuity guard: with `assert(false)` at entry / exit / in loops every
   function must fail;
3. run the executable oracle of the same property on the real code (bounded):
   finds concrete counterexamples and cross-checks the trusted contracts.
"""
import hashlib, json, os, re, subprocess, sys, time, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from extract import Extractor, ExtractError, RULES  # noqa: E402
from props import PROPS  # noqa: E402
from rsx import RsxError  # noqa: E402
import genreal  # noqa: E402

BUILD = os.path.join(VERIF, "build")
ENV = dict(os.environ, HOME="/root", CARGO_HOME="/root/.cargo", RUSTUP_HOME="/root/.rustup", CARGO_NET_OFFLINE="true",
           CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUSTUP_TOOLCHAIN="stable",
           PATH="/root/.cargo/bin:" + os.environ.get("PATH", ""))
VERUS = "verus"
RLIMIT = "80"


def sh(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True,
                           errors="replace", **kw)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout"


def verus_env():
    e = dict(ENV)
    e.pop("RUSTUP_TOOLCHAIN", None)
    return e


def count_obligations(logdir):
    n = q = 0
    for r, _, fs in os.walk(logdir):
        for f in fs:
            if f.endswith(".air"):
                txt = open(os.path.join(r, f), errors="replace").read()
                for blk in txt.split("(check-valid")[1:]:
                    q += 1
                    n += len(re.findall(r"\(assert\s", blk.split("\n)\n")[0]))
    return n, q


def run_verus(path, logdir=None, timeout=420, canary=False):
    cmd = [VERUS, "--edition=2024", "--triggers-mode", "silent", "--rlimit", "10" if canary else RLIMIT, "--multiple-errors", "0" if canary else "8", "--output-json", "--time-expanded", path]
    if logdir:
        cmd += ["--log-dir", logdir, "--log", "air"]
    rc, out, err = sh(cmd, timeout, cwd=os.path.dirname(path), env=verus_env())
    res = {"rc": rc, "stderr": err, "json": None, "timeout": rc == 124}
    try:
        res["json"] = json.loads(out)
    except ValueError:
        i = out.find("{")
        try:
            res["json"] = json.loads(out[i:]) if i >= 0 else None
        except ValueError:
            pass
    return res


def fn_results(j):
    out = {}
    try:
        for m in j["times-ms"]["smt"]["smt-run-module-times"]:
            for f in m["function-breakdown"]:
                k = f["function"]
                out[k] = (out.get(k, (True, 0))[0] and f["success"], out.get(k, (True, 0))[1] + f["time-micros"])
    except (KeyError, TypeError):
        pass
    return out


class Proof:
    """outcome: proved | failed | undecided"""

    def __init__(self, pid, cfg, work):
        self.pid, self.cfg, self.work = pid, cfg, work
        self.outcome, self.reason, self.failures = "undecided", "", []
        self.functions, self.obligations, self.discharged, self.queries = [], 0, 0, 0
        self.solver_ms, self.trusted, self.rules, self.canaries = 0, [], {}, {}
        self.verified_fns = 0
        self.shape_changed = []
        self.cmd = ""
        self.verus_output = ""

    def run(self):
        t = self.cfg["template"]
        templates = t if isinstance(t, list) else [t]
        outcomes = []
        for tp in templates:
            outcomes.append(self.one(tp))
        if "failed" in outcomes:
            self.outcome = "failed"
        elif all(o == "proved" for o in outcomes):
            self.outcome = "proved"
        else:
            self.outcome = "undecided"
        return self

    def one(self, tp):
        tpath = os.path.join(VERIF, "specs", tp + ".rs")
        x = Extractor(tpath)
        try:
            text = x.run()
            variants = {c: x2.run(c) for c, x2 in ((c, Extractor(tpath)) for c in ("entry", "exit", "loops"))}
        except (ExtractError, RsxError) as e:
            self.reason += f"[{tp}] extraction: {e}; "
            return "undecided"
        f = os.path.join(self.work, tp + ".rs")
        open(f, "w").write(text)
        self.cmd = f"verus --edition=2024 --rlimit {RLIMIT} {tp}.rs (text extracted from /repo by tools/extract.py specs/{tp}.rs)"
        logdir = os.path.join(self.work, "log_" + tp)
        subprocess.run(["rm", "-rf", logdir])
        results = {}

        def go(name, path, ld=None):
            results[name] = run_verus(path, ld, canary=name != "main")
        th = [threading.Thread(target=go, args=("main", f, logdir))]
        for c, v in variants.items():
            p = os.path.join(self.work, f"{tp}_{c}.rs")
            # (a canary only has to be not provable: no extra time for it)
            open(p, "w").write(re.sub(r"#\[verifier::rlimit\(\d+\)\]", "", v))
            th.append(threading.Thread(target=go, args=(c, p)))
        for q in th:
            q.start()
        for q in th:
            q.join()
        r = results["main"]
        subs = len(x.functions)
        self.functions += [dict(function=g["spec"], file=g["file"], lines=g["lines"], loops=g["loops"]) for g in x.functions]
        for k, v in x.used_rules.items():
            self.rules.setdefault(k, {}).update(v)
        self.trusted += scan_trusted(text)
        base = os.path.join(VERIF, "specs", "shapes.json")
        shapes = json.load(open(base)) if os.path.exists(base) else {}
        for g in x.functions:
            want = shapes.get(tp, {}).get(g["spec"])
            if want != {"shape": g["shape"], "calls": g["calls"]}:
                self.shape_changed.append(g["spec"])
        j = r["json"]
        vr = (j or {}).get("verification-results") or {}
        if not j or vr.get("encountered-vir-error") or not vr or (vr.get("verified", 0) == 0 and vr.get("errors", 0) == 0):
            self.reason += f"[{tp}] the verifier does not accept the changed text: {first_error(r['stderr'])}; "
            self.verus_output += r["stderr"][-4000:]
            return "undecided"
        ob, q = count_obligations(logdir)
        subprocess.run(["rm", "-rf", logdir])
        self.obligations += ob
        self.queries += q
        fr = fn_results(j)
        self.solver_ms += sum(v[1] for v in fr.values()) / 1000.0
        self.verified_fns += vr.get("verified", 0)
        fails = parse_failures(r["stderr"], text)
        if vr.get("errors", 0) == 0 and vr.get("success", False):
            self.discharged += ob
            # vacuity
            bad = []
            exit_free = set(getattr(x, "noexit", []))
            for c in ("entry", "exit", "loops"):
                cj = results[c]["json"]
                cv = (cj or {}).get("verification-results") or {}
                if not cj or cv.get("encountered-vir-error"):
                    bad.append(f"{c}: canary not accepted ({first_error(results[c]['stderr'])})")
                    continue
                due = [g["name"] for g in x.functions if c != "loops" or g["loops"]]
                if c == "exit":
                    for e in exit_free:
                        due.remove(e.split("::")[-1])
                fell = [k.split("::")[-1] for k, v in fn_results(cj).items() if not v[0]]
                want, got = len(due), sum(min(due.count(n), fell.count(n)) for n in set(due))
                self.canaries[f"{tp}:{c}"] = f"{got}/{want}"
                if got < want:
                    bad.append(f"{c}: only {got} of {want} canaries fail")
            if ob == 0:
                bad.append("no obligations")
            if bad:
                self.reason += f"[{tp}] vacuity guard: " + "; ".join(bad) + "; "
                return "undecided"
            return "proved"
        real = [g for g in fails if g["kind"] not in ("rlimit", "note")]
        self.verus_output += r["stderr"][-12000:]
        self.discharged += max(0, ob - max(1, len(real)))
        if not real:
            self.reason += f"[{tp}] solver limit: {[g['fn'] for g in fails]}; "
            return "undecided"
        self.failures += real
        return "failed"


def first_error(stderr):
    m = re.search(r"^error[^\n]*", stderr, re.M)
    return m.group(0)[:300] if m else ("timeout" if "timeout" in stderr else stderr[:200])


def parse_failures(stderr, text):
    lines = text.split("\n")
    out = []
    for m in re.finditer(r"^error(?:\[[^\]]*\])?: ([^\n]*)\n\s*--> [^:\n]*:(\d+):(\d+)", stderr, re.M):
        msg, ln = m.group(1), int(m.group(2))
        kind = "rlimit" if "rlimit" in msg or "Resource limit" in msg or "timed out" in msg else "obligation"
        if msg.startswith("aborting"):
            continue
        fn = "?"
        for k in range(min(ln, len(lines)) - 1, -1, -1):
            g = re.match(r"\s*(?:pub\s+)?(?:broadcast\s+)?(?:proof\s+)?(?:const\s+)?fn\s+(\w+)", lines[k])
            if g:
                fn = g.group(1)
                break
        out.append({"kind": kind, "msg": msg, "fn": fn, "line": ln, "text": lines[ln - 1].strip() if ln <= len(lines) else ""})
    return out


def scan_trusted(text):
    out = []
    for m in re.finditer(r"assume_specification(?:<[^\[]*>)?\s*\[\s*(.*?)\s*\]\s*\(", text):
        out.append(f"assumed contract of {m.group(1)}")
    ls = text.split("\n")
    for i, l in enumerate(ls):
        if "external_body" in l:
            for k in range(i, min(i + 6, len(ls))):
                g = re.search(r"(?:fn|struct|enum)\s+(\w+)", ls[k])
                if g:
                    out.append(("trusted axiom " if "proof fn" in ls[k] else "opaque/trusted ") + g.group(1))
                    break
        if re.search(r"\badmit\s*\(\)|\bassume\s*\(", l):
            out.append(f"ASSUME: {l.strip()}")
    return sorted(set(out))


def build_harness(pid, cfg):
    b = cfg.get("bin", pid.lower())
    try:
        genreal.generate(VERIF, cfg.get("gen", []), os.path.join(BUILD, "gen"))
    except (ExtractError, RsxError) as e:
        return None, f"extraction: {e}"
    rc, out, err = sh(["cargo", "build", "--offline", "--target-dir", os.path.join(BUILD, "target"), "-p", cfg["pkg"], "--bin", b],
                      600, cwd=os.path.join(VERIF, "harness"), env=ENV)
    if rc != 0:
        m = re.search(r"^error.*(?:\n.*){0,12}", err, re.M)
        return None, (m.group(0) if m else err[-1500:])
    return os.path.join(BUILD, "target", "debug", b), ""


def build_real(pid, cfg):
    """the whole program, unmodified, linked against stand-ins of the crates that are not available here"""
    b = cfg["real"]
    rc, out, err = sh(["cargo", "build", "--offline", "--target-dir", os.path.join(BUILD, "treal"), "-p", "jarl", "-p", "e2e", "--bin", "jarl", "--bin", b],
                      600, cwd=os.path.join(VERIF, "real"), env=ENV)
    if rc != 0:
        m = re.search(r"^error.*(?:\n.*){0,12}", err, re.M)
        return None, (m.group(0) if m else err[-1500:])
    return os.path.join(BUILD, "treal", "debug", b), ""


def harnesses(cfg):
    out = []
    if cfg.get("pkg"):
        out.append(("code", build_harness))
    if cfg.get("real"):
        out.append(("program", build_real))
    return out


def merge(reports):
    """one report of the harnesses that ran"""
    rs = [(k, r) for k, r in reports if r]
    if not rs:
        return None
    m = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "violations": [], "exhaustive": False}
    for k, r in rs:
        m["evaluations"] += r["evaluations"]
        m["distinct_nontrivial"] += r["distinct_nontrivial"]
        m["rule"] += ("" if not m["rule"] else " || ") + r["rule"]
        m["samples"] += r["samples"][:3]
        m["violations"] += [dict(v, harness=k) for v in r["violations"]]
    return m


def run_harness(exe, seed, thorough, only=None):
    cmd = [exe, "--seed", str(seed)] + (["--thorough"] if thorough else []) + (["--only-file", only] if only else [])
    if not thorough:
        cmd += ["--secs", "12"]
    rc, out, err = sh(["bash", "-c", "ulimit -v 12000000; exec \"$@\"", "x"] + cmd, 780 if thorough else 300, cwd=BUILD, env=ENV)
    m = re.search(r"^HARNESS-REPORT (.*)$", out, re.M)
    if not m:
        return None, f"harness ended with {rc}: {err[-600:]}"
    return json.loads(m.group(1)), ""


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) case=(.*?) :: (.*)$", l.rstrip("\n"))
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    t0 = time.time()
    pid = sys.argv[1]
    cfg = PROPS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if "--quick" in sys.argv:
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    work = os.path.join(BUILD, "work", pid)
    for d in (work, os.path.join(VERIF, "evidence"), os.path.join(BUILD, "replay"), os.path.join(BUILD, "gen")):
        os.makedirs(d, exist_ok=True)
    if "--replay" in sys.argv:
        rep = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        build = dict(harnesses(cfg)).get(rep.get("harness", "code"))
        exe, why = build(pid, cfg) if build else (None, "")
        if not exe or "case" not in rep:
            print(why or rep)
            return 2
        f = os.path.join(work, "only.txt")
        open(f, "w").write(rep["case"])
        h, why = run_harness(exe, rep.get("seed", seed), rep.get("tier") == "thorough", f)
        print(json.dumps(h, indent=1) if h else why)
        return 1 if h and h["violations"] else 0

    proof = Proof(pid, cfg, work) if cfg.get("template") else None
    th = None
    if proof:
        th = threading.Thread(target=proof.run)
        th.start()
    built = [(k, b(pid, cfg)) for k, b in harnesses(cfg)]
    if th:
        th.join()
    reports, whys = [], []

    def go(k, exe, err):
        if not exe:
            whys.append(f"harness ({k}) does not build: {err}")
            return
        h, w = run_harness(exe, seed, tier == "thorough")
        reports.append((k, h))
        if not h:
            whys.append(f"({k}) {w}")
    hts = [threading.Thread(target=go, args=(k, e, w)) for k, (e, w) in built]
    for q in hts:
        q.start()
    for q in hts:
        q.join()
    reports.sort(key=lambda x: x[0])
    harness, hwhy = merge(reports), "; ".join(whys)

    violations = []
    known = known_findings(pid)
    if harness:
        for v in harness["violations"]:
            k = next((k for k in known if v["case"] == k[0]), None)
            if k:
                print(f"KNOWN-FINDING: property={pid} {k[1]}")
            else:
                violations.append(v)
    lines, status = [], 0
    replay = os.path.join(BUILD, "replay", f"{pid}.json")
    pout = proof.outcome if proof else "none"
    if violations:
        v = violations[0]
        json.dump({"property": pid, "harness": v.get("harness", "code"), "case": v["case"], "why": v["why"], "seed": seed, "tier": tier,
                   "failed_obligations": proof.failures if proof else [], "proof": pout,
                   "rerun": f"python3 {VERIF}/tools/check.py {pid} --replay {replay}"}, open(replay, "w"), indent=1)
        print(f"counterexample: {v['case'][:600]}\n  {v['why'][:1000]}")
        if proof and proof.failures:
            for g in proof.failures[:5]:
                print(f"  failed obligation in {g['fn']}: {g['msg']}: {g['text'][:160]}")
        lines.append(f"VIOLATION property={pid} replay={replay}")
        status = 1
    elif pout == "failed" and not proof.shape_changed:
        json.dump({"property": pid, "failed_obligations": proof.failures, "verifier_output": proof.verus_output,
                   "note": "every obligation passed on the unchanged tree; the structure of the functions is unchanged"},
                  open(replay, "w"), indent=1)
        for g in proof.failures[:8]:
            print(f"failed obligation in {g['fn']}: {g['msg']}: {g['text'][:160]}")
        lines.append(f"VIOLATION property={pid} replay={replay} no-failing-input-found")
        status = 1
    elif harness is None:
        if pout == "proved":
            status = 0   # the deciding step is the proof
        else:
            print(f"no answer: proof {pout} ({proof.reason if proof else ''}); {hwhy}")
            status = 2

    level = "proof" if pout == "proved" else "exploration"
    cov = {}
    if proof:
        cov.update({
            "obligations": proof.obligations, "discharged": proof.discharged,
            "checker_cmd": proof.cmd, "back_end": "Verus 0.2026.09.13 (Z3)",
            "smt_queries": proof.queries, "solver_ms": round(proof.solver_ms),
            "functions_under_contract": proof.functions,
            "verified_items": proof.verified_fns,
            "trusted_base": proof.trusted,
            "rewriting": {k: {"rule": RULES.get(k, k), "uses": v} for k, v in proof.rules.items()},
            "vacuity_canaries_failing_as_required": proof.canaries,
            "proof_outcome": pout, "proof_reason": proof.reason,
            "failed_obligations": proof.failures, "restructured_functions": proof.shape_changed,
        })
        if pout != "proved":
            cov["explanation"] = "BOUNDED: the proof did not go through on this source (see proof_reason); only the bounded executable oracle below was decided, nothing is counted as proved"
    if harness:
        if hwhy:
            cov["harness_not_run"] = hwhy[:600]
        cov.update({"evaluations": harness["evaluations"], "distinct_nontrivial": harness["distinct_nontrivial"],
                    "rule": harness["rule"], "samples": harness["samples"][:6], "exhaustive": harness["exhaustive"]})
    else:
        cov.update({"evaluations": 0, "distinct_nontrivial": 0, "rule": "harness not available: " + hwhy, "samples": []})
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": level,
          "coverage": cov, "assumptions": cfg.get("assumptions", []) + cfg.get("unverified", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(violations) + (1 if status == 1 and not violations else 0)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w"), indent=1)
    print(f"{pid}: proof {pout}" + (f" ({proof.discharged}/{proof.obligations} obligations, {len(proof.functions)} functions)" if proof else "")
          + (f" [{proof.reason}]" if proof and proof.reason else "")
          + (f" restructured: {proof.shape_changed}" if proof and proof.shape_changed else "")
          + (f"; oracle: {harness['evaluations']} cases, {len(harness['violations'])} violations" + (f" ({hwhy[:300]})" if hwhy else "") if harness else f"; {hwhy[:500]}")
          + f"; {ev['wall_s']} s")
    for l in lines:
        print(l)
    return status


if __name__ == "__main__":
    sys.exit(main())
