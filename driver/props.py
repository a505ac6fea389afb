"""Per-property data and the evidence writer."""
import json, os, re
from . import build

# properties whose bounded tier also runs in the no-default-features configuration (thorough)
MIN_CONFIG = {"C01", "C04", "C05", "C06", "C07", "C08", "C09", "C11", "C12", "C13", "C14", "C15", "C16", "C18", "C19"}

LEVEL = {}   # default: proof


def level(prop):
    m = json.load(open(os.path.join(build.VERIF, "MANIFEST.json")))
    for c in m["checks"]:
        if c["property"] == prop:
            return c["level"]
    return "proof"


STR = re.compile(r"""//[^\n]*|b?r(#*)"(.*?)"\1|b?"((?:[^"\\]|\\.)*)"|b?'((?:[^'\\\n]|\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F]+\}|.)))'|(?<![\w.])(0x[0-9a-fA-F_]+|[0-9][0-9_]*)(?=[iu](?:8|16|32|64|128|size)\b|\b)""", re.S)
ESC = {"n": "\n", "r": "\r", "t": "\t", "0": "\0", "\\": "\\", '"': '"', "'": "'"}


def unescape(s):
    def f(m):
        t = m.group(1)
        if t[0] == "x":
            return chr(int(t[1:], 16))
        if t[0] == "u":
            return chr(int(t[2:-1], 16))
        return ESC.get(t, "")
    return re.sub(r"\\(x[0-9a-fA-F]{2}|u\{[0-9a-fA-F]+\}|\s+|.)", f, s, flags=re.S)


def literals(repo):
    """file -> how often each literal occurs in it ("s:text", "n:number"; products and shifts of numbers count too)"""
    out = {}
    for top in ("src", "octane_http/src", "octane_macros/src"):
        for d, ds, fs in os.walk(os.path.join(repo, top)):
            for f in fs:
                if not f.endswith(".rs"):
                    continue
                p = os.path.join(d, f)
                c = out.setdefault(os.path.relpath(p, repo), {})

                def add(k):
                    c[k] = c.get(k, 0) + 1
                text = open(p, errors="replace").read()
                for m in STR.finditer(text):
                    if m.group(5):
                        add("n:%d" % int(m.group(5).replace("_", ""), 0 if m.group(5).startswith("0x") else 10))
                    elif m.group(2) is not None:
                        add("s:" + m.group(2))
                    else:
                        t = m.group(3) if m.group(3) is not None else m.group(4)
                        if t is not None:
                            try:
                                add("s:" + unescape(t))
                            except ValueError:
                                pass
                for m in re.finditer(r"\b(\d[\d_]*)\s*(<<|\*)\s*(\d[\d_]*)\b(?:\s*\*\s*(\d[\d_]*)\b)?", text):
                    x, y, z = (int((g or "1").replace("_", "")) for g in (m.group(1), m.group(3), m.group(4)))
                    if m.group(2) == "*":
                        add("n:%d" % (x * y * z))
                    elif y < 40:
                        add("n:%d" % (x << y))
    return out


def dict_args(b):
    """Literals that some file of the current tree has more often than in the tree the checks were
    written for: the bounded tier mixes them into its inputs."""
    base = json.load(open(os.path.join(b.VERIF, "units", "literals.json")))
    strs, nums = set(), set()
    for f, c in literals(b.REPO).items():
        for k, n in c.items():
            if n > base.get(f, {}).get(k, 0):
                if k[0] == "s":
                    strs.add(k[2:])
                else:
                    nums.add(int(k[2:]))
    if not strs and not nums:
        return []
    p = os.path.join(b.BUILD, "run", "dict.txt")
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p + ".%d" % os.getpid(), "w") as f:
        for s in sorted(strs):
            if 0 < len(s) < 200:
                f.write("s %s\n" % s.encode("utf-8", "replace").hex())
        for n in sorted(nums):
            f.write("n %d\n" % n)
    os.replace(p + ".%d" % os.getpid(), p)
    return ["--dict", p]


def known_findings(prop):
    p = os.path.join(build.VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out


TRUST = [
    "Verus 0.2026.09.13 (rust_verify, its bundled Z3), vstd and its specifications of std",
    "rustc's semantics of the extracted functions; the extractor tools/vxt and its rewrite rules (DESIGN.md section 3)",
]


def evidence(prop, tier, seed, results, fn_rows, failed, undecided, reports, fails, notes, wall):
    lv = level(prop)
    cov = {}
    verified = sum(r["verified"] for _, r in results)
    errors = sum(r["errors"] for _, r in results)
    assum, cmds = [], []
    for u, r in results:
        cmds += r["cmds"][-1:]
        for a in r["assumptions"]:
            t = "unit %s: assumed contract: %s" % (u.name, a)
            if t not in assum:
                assum.append(t)
        for f in u.fns():
            st = r["fns"][f.id]
            if st.get("assumed_by"):
                assum.append("unit %s uses the contract of %s, whose body is verified against it in unit %s" % (u.name, st["sel"], st["assumed_by"]))
            elif st["external"]:
                assum.append("unit %s: contract of %s is assumed, its body is not verified" % (u.name, st["sel"]))
    cov["obligations"] = verified + errors
    cov["discharged"] = verified
    cov["checker_cmd"] = " && ".join(cmds) if cmds else "none: no deductive unit covers this property"
    cov["trusted_base"] = TRUST
    cov["functions_under_contract"] = [
        {"function": st["sel"], "file": st["file"], "line": st["line"], "unit": u.name, "status": st["status"],
         "assumed": st["external"], "why": st["why"], "rewrites": st["rules"], "inlined_helpers": st["inlined"]}
        for u, r, st in fn_rows]
    cov["units"] = [{"unit": u.name, "title": u.title, "queries_verified": r["verified"], "queries_failed": r["errors"],
                     "solver": "z3 (via Verus)", "solver_ms": r["smt_ms"], "wall_s": round(r["wall"], 2),
                     "vacuity": r.get("vacuity"), "undecided": r["undecided_unit"],
                     "slowest": sorted(r["breakdown"], key=lambda b: -b["ms"])[:5]} for u, r in results]
    ev = nt = 0
    samples, rules, secs = [], [], []
    for rep in reports:
        for s in rep["sections"]:
            ev += s["evaluated"]
            nt += s["nontrivial"]
            if s["samples"]:
                samples.append({"section": s["name"], "case": s["samples"][0][:400]})
            rules.append("%s: %s" % (s["name"], s["rule"]))
            secs.append({"config": rep["config"], "section": s["name"], "planned": s["planned"], "evaluated": s["evaluated"],
                         "distinct_nontrivial": s["nontrivial"], "skipped": s["skipped"], "exhaustive_in_bound": s["exhaustive"], "cut_by_time": s["cut"]})
    cov["evaluations"] = ev
    cov["distinct_nontrivial"] = nt
    cov["rule"] = " | ".join(dict.fromkeys(rules))
    cov["samples"] = samples[:12]
    cov["bounded_stand_in"] = {
        "label": "bounded, never counted as proved: concrete runs of the compiled crate against executable specifications",
        "sections": secs}
    cov["undecided_functions"] = [{"function": st["sel"], "unit": u.name, "why": st["why"]} for u, r, st in undecided]
    cov["notes"] = notes
    return {"property": prop, "tier": tier, "seed": seed, "level": lv, "coverage": cov,
            "assumptions": assum + ASSUMED.get(prop, []) + GENERAL, "wall_s": round(wall, 2), "violations": 1 if (fails or failed) else 0}


GENERAL = [
    "termination of loops whose contract carries exec_allows_no_decreases_clause is not proved",
    "panics inside std and dependencies (allocation failure, poisoned locks) are outside the contracts",
]
ASSUMED = {}
