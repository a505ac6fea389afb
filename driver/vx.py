"""Deductive tier: generate a Verus file from a unit template and the functions extracted from
/repo on this run, verify it, and attribute every failed obligation to a function."""
import ast, json, os, re, shutil, subprocess, time
from . import build

UNITS = os.path.join(build.VERIF, "units")
BASE = os.path.join(UNITS, "baseline.json")

SEMANTIC = [
    "postcondition not satisfied", "precondition not satisfied", "assertion failed",
    "invariant not satisfied", "possible arithmetic", "possible division by zero", "possible bit shift",
    "decreases not satisfied", "loop ensures not satisfied", "loop invariant", "unreachable",
    "possible panic", "index out of bounds", "type invariant", "could not prove termination",
    "failed", "not satisfied", "assert_by", "precondition not met", "unable to prove",
]
RLIMIT = ["Resource limit", "rlimit", "timed out", "incompleteness"]


class Fn:
    def __init__(self, file, sel, opts):
        self.file, self.sel, self.opts = file, sel, opts
        self.ret = None
        self.props = None
        self.params = None
        self.attr = ""
        self.sections = {}
        self.id = None


class Unit:
    def __init__(self, name):
        self.name = name
        self.path = os.path.join(UNITS, name + ".vx")
        self.features = None
        self.methods, self.calls, self.types, self.bounds, self.casts, self.fields = {}, {}, {}, {}, {}, {}
        self.opts = set()
        self.rlimit = 30
        self.props = []
        self.title = ""
        self.parts = []  # str | Fn | ("const", file, name) | ("struct", file, name, attrs) | ...
        self.parse(open(self.path).read().split("\n"))

    def parse(self, lines):
        i = 0
        buf = []
        assumed = None

        def flush():
            if buf:
                t = "\n".join(buf)
                if assumed:  # lemmas of an assumed part are proved in its own unit
                    t = re.sub(r"(?m)(?<!#\[via_fn\]\n)^(?=(?:pub )?(?:broadcast )?proof fn )", "#[verifier::external_body]\n", t)
                self.parts.append(t)
                buf.clear()

        while i < len(lines):
            l = lines[i]
            if l.startswith("#") and not l.startswith("#[") and not l.startswith("#!["):
                k, _, v = l[1:].partition(" ")
                v = v.strip()
                if k == "title":
                    self.title = v
                elif k == "features":
                    self.features = v.split()
                elif k in ("method", "call", "type", "bound", "cast", "field"):
                    a, _, b = v.partition("=>" if "=>" in v else "=")
                    getattr(self, k + "s")[a.strip().replace(" ", "")] = b.strip()
                elif k == "opt":
                    self.opts |= set(v.split())
                elif k == "rlimit":
                    self.rlimit = float(v)
                elif k == "props":
                    self.props = v.split()
                elif k == "include":
                    sub = open(os.path.join(UNITS, v)).read().split("\n")
                    lines[i + 1:i + 1] = sub
                elif k == "assume":  # include with the contracts of its functions taken as proved elsewhere
                    v, _, by = v.partition(" ")
                    sub = open(os.path.join(UNITS, v)).read().split("\n")
                    lines[i + 1:i + 1] = ["#assume-on " + by] + sub + ["#assume-off"]
                elif k == "assume-on":
                    flush()
                    assumed = v or "another unit"
                elif k == "assume-off":
                    flush()
                    assumed = None
                else:
                    raise ValueError("bad directive " + l)
                i += 1
                continue
            if l.startswith("@@"):
                flush()
                w = l[2:].split()
                if w[0] == "fn":
                    f = Fn(w[1], w[2], dict(x.partition("=")[::2] for x in w[3:]))
                    if assumed:
                        f.opts["assumed"] = assumed
                    cur = None
                    i += 1
                    while lines[i].strip() != "@@end":
                        m = lines[i]
                        s = m.strip()
                        if s.startswith("@") and not s.startswith("@@"):
                            k, _, v = s[1:].partition(" ")
                            if k == "ret":
                                f.ret = v.strip()
                            elif k == "props":
                                f.props = v.split()
                            elif k == "params":
                                f.params = v.split()
                            elif k == "attr":
                                f.attr += v + "\n"
                            else:
                                cur = (k + " " + v.strip()).strip()
                                f.sections[cur] = []
                        elif cur is not None:
                            f.sections[cur].append(m)
                        elif s and not s.startswith("//"):
                            raise ValueError("%s: text outside a section: %s" % (self.name, m))
                        i += 1
                    self.parts.append(f)
                else:
                    self.parts.append(tuple(w))
                i += 1
                continue
            buf.append(l)
            i += 1
        flush()
        for k, f in enumerate([p for p in self.parts if isinstance(p, Fn)]):
            f.id = "f%d" % k

    def fns(self):
        return [p for p in self.parts if isinstance(p, Fn)]

    def fn_props(self, f):
        return f.props if f.props is not None else self.props

    def all_props(self):
        s = set()
        for f in self.fns():
            if "assumed" in f.opts:
                continue
            s |= set(self.fn_props(f))
        return s


DEFAULT_FEATURES = ["faithful", "query_strings", "cookies", "url_variables", "raw_headers", "extended_queries"]


def load_units():
    out = []
    for n in sorted(os.listdir(UNITS)):
        if n.endswith(".vx"):
            out.append(Unit(n[:-3]))
    return out


def known():
    p = os.path.join(UNITS, "known_fns.json")
    return json.load(open(p)) if os.path.exists(p) else []


def extract(u, vxt_bin, repo=None):
    items = []
    for p in u.parts:
        if isinstance(p, Fn):
            items.append({"id": p.id, "kind": "fn", "sel": p.sel, "file": p.file})
        elif isinstance(p, tuple):
            items.append({"id": "%s:%s" % (p[0], p[2]), "kind": {"strtable": "const", "macro_str": "item_macro"}.get(p[0], p[0]), "sel": p[2], "file": p[1]})
    req = {
        "repo": repo or build.REPO, "features": u.features if u.features is not None else DEFAULT_FEATURES,
        "methods": u.methods, "calls": u.calls, "types": u.types, "bounds": u.bounds, "casts": u.casts, "fields": u.fields, "known": known(),
        "expanded": {f: build.expanded(f.split(":")[1]) for f in {i["file"] for i in items} if f.startswith("expanded:")},
        "strip_async": "strip_async" in u.opts, "native_for": "native_for" in u.opts, "range_for": "range_for" in u.opts, "hoist_try": "hoist_try" in u.opts,
        "drop_lifetimes": "drop_lifetimes" in u.opts,
        "eq_shim": "eq_shim" in u.opts, "range_shim": "range_shim" in u.opts, "items": items,
    }
    p = subprocess.run([vxt_bin], input=json.dumps(req), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
    if p.returncode != 0:
        raise build.BuildError("extraction failed: " + p.stderr[-2000:])
    return json.loads(p.stdout)


MARK = re.compile(r"vxm\s*!\s*\{\s*([a-z]+)\s*([0-9]*)\s*\}\s*;?")


def charlit(c):
    return "'\\''" if c == "'" else "'\\\\'" if c == "\\" else "'%s'" % c


def unquote(lit):
    return json.loads(lit) if lit.startswith('"') else lit


_base = []


def baseline():
    if not _base:
        _base.append(json.load(open(BASE)) if os.path.exists(BASE) else {})
    return _base[0]


def body_lits(r):
    """the string literals of an extracted body, as written"""
    return set(re.findall(r'(?<![\w"\'])"(?:[^"\\]|\\.)*"', r.get("body", "")))


def lit_hints(lits):
    """what string literals spell (for texts that were not in the function when its contract was written)"""
    out = []
    for l in sorted(lits):
        try:
            cs = ast.literal_eval(re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: "\\U%08x" % int(m.group(1), 16), l))
        except Exception:
            continue
        if len(cs) <= 60:
            out.append("reveal_strlit(%s); assert(%s@ =~= seq![%s]);" % (l, l, ", ".join(charlit(c) if 32 <= ord(c) < 127 else "'\\u{%x}'" % ord(c) for c in cs)) if cs
                       else "reveal_strlit(%s); assert(%s@ =~= Seq::<char>::empty());" % (l, l))
            if 2 <= len(cs) <= 8:
                out.append("assert(%s@ =~= %s);" % (l, " + ".join("seq![%s]" % (charlit(c) if 32 <= ord(c) < 127 else "'\\u{%x}'" % ord(c)) for c in cs)))
    return "proof { %s }\n" % " ".join(out) if out else ""


def gen(u, ex, external=(), vacuity=False):
    """Returns (text, list of (first line, last line, Fn), problems)."""
    out = []
    spans = []
    problems = []  # (Fn or None, text)
    hints_missing = []
    lineno = [1]

    def emit(s):
        out.append(s)
        lineno[0] += s.count("\n") + 1

    for p in u.parts:
        if isinstance(p, str):
            emit(p)
            continue
        if isinstance(p, tuple):
            r = ex["items"].get("%s:%s" % (p[0], p[2]), {})
            if not r.get("found"):
                problems.append((None, "lost anchor: %s %s" % (p[0], p[2])))
                continue
            if p[0] == "const" and re.match(r'^b"', r["expr"].strip()):
                bs = eval(r["expr"].strip(), {})  # a byte-string literal
                emit("#[verifier::external_body] pub exec const %s: &'static [u8]\n    ensures %s@ == seq![%s],\n{ %s }" % (
                    p[2], p[2], ", ".join("%du8" % b for b in bs), r["expr"].strip()))
            elif p[0] == "const":
                emit("pub const %s: %s = %s;" % (p[2], re.sub(r"&\s*(?!')", "&'static ", r["ty"].strip()), r["expr"].strip()))
            elif p[0] == "strtable":
                # const array of string literals -> spec function by index, and its length
                es = [e for e in r["elems"]]
                emit("pub open spec fn %s_len() -> nat { %d }" % (p[3], len(es)))
                arms = " ".join("if i == %d { %s@ } else" % (i, e) for i, e in enumerate(es))
                emit("pub open spec fn %s_at(i: int) -> Seq<char> { %s { seq![] } }" % (p[3], arms))
                if len(p) > 4 and p[4] == "exec":
                    emit("pub fn %s_exec(i: usize) -> (r: &'static str) requires i < %d, ensures r@ == %s_at(i as int) { %s { \"\" } }" % (
                        p[3], len(es), p[3], " ".join("if i == %d { %s } else" % (i, e) for i, e in enumerate(es))))
            elif p[0] in ("struct", "enum"):
                t, attrs = r["text"], []
                for a in p[3:]:
                    if a.startswith("inst="):  # a type parameter that the rewritten fields no longer mention
                        tp = a[5:]
                        t = re.sub(r"\bwhere\b[^{]*\{", "{", t, 1)
                        t = re.sub(r"(\bstruct\s+\w+\s*<[^>]*?),\s*%s\s*(?=[,>])" % tp, r"\1", t, 1)
                    else:
                        attrs.append(a)
                emit(" ".join(attrs) + "\n" + t)
            elif p[0] == "type":
                emit("pub type %s = %s;" % (p[2], r["text"]))
            elif p[0] == "macro_str":
                # the string literal of an item macro (lazy_static!) as a spec function
                ls = [x for x in r["lits"] if x.startswith('"')]
                if len(ls) != 1:
                    problems.append((None, "lost anchor: literal of %s" % p[2]))
                    continue
                emit("pub open spec fn %s() -> Seq<char> { %s@ }" % (p[3], ls[0]))
                emit("pub proof fn %s_is()\n    ensures %s() == seq![%s],\n{ reveal_strlit(%s); assert(%s() =~= seq![%s]); }" % (
                    p[3], p[3], ", ".join(charlit(c) for c in json.loads(ls[0])), ls[0], p[3], ", ".join(charlit(c) for c in json.loads(ls[0]))))
                cs = json.loads(ls[0])
                emit("pub proof fn %s_set(c: char)\n    ensures %s().contains(c) <==> (%s),\n{ %s_is(); let s = %s();\n%s\n}" % (
                    p[3], p[3], " || ".join("c == %s" % charlit(c) for c in sorted(set(cs))), p[3], p[3],
                    "\n".join("assert(s[%d] == %s);" % (i, charlit(c)) for i, c in enumerate(cs))))
            elif p[0] == "item_macro":
                # codes and phrases of a table macro as one spec function
                ls = r["lits"]
                emit("pub open spec fn %s() -> Seq<(int, Seq<char>)> { seq![%s] }" % (
                    p[3], ", ".join("(%sint, %s@)" % (ls[i], ls[i + 1]) for i in range(0, len(ls) - 1, 2))))
            continue
        f = p
        r = ex["items"].get(f.id, {})
        if not r.get("found"):
            problems.append((f, "lost anchor: function %s" % f.sel))
            continue
        if r["unknown"]:
            problems.append((f, "calls new helpers that could not be inlined: %s" % ", ".join(r["unknown"])))
        sig = r["sig"].strip()
        sig = re.sub(r"^(pub\s*(\([^)]*\))?\s*)", "", sig)
        name = re.search(r"\bfn\s+(\w+)", sig).group(1)
        if "rename" in f.opts:
            sig = re.sub(r"\bfn\s+\w+", "fn " + f.opts["rename"], sig, 1)
        where = r["where"].strip().rstrip(",")
        if "inst" in f.opts:
            # a type parameter of the function, verified at one (opaque) instance
            tp, ty = f.opts["inst"].split("=", 1)
            g = re.search(r"\bfn\s+\w+\s*<([^<>()]*)>", sig)
            if not g or tp not in [x.split(":")[0].strip() for x in g.group(1).split(",")]:
                problems.append((f, "type parameter %s" % tp))
            else:
                keep = [x for x in g.group(1).split(",") if x.strip() and x.split(":")[0].strip() != tp]
                sig = sig[:g.start(1) - 1] + ("<%s>" % ",".join(keep) if keep else "") + re.sub(r"\b%s\b" % tp, ty, sig[g.end():])
                if where:
                    preds = [x for x in re.sub(r"^where\b", "", where).split(",") if x.strip() and x.split(":")[0].strip() != tp]
                    where = "where " + ",".join(preds) if preds else ""
        pre = ""
        if f.params is not None:
            actual = [x for x in r["params"] if x != "self"]
            if len(actual) != len(f.params):
                problems.append((f, "number of parameters changed"))
            else:
                for a, c in zip(actual, f.params):
                    mut = a.startswith("mut ")
                    an = a[4:] if mut else a
                    if an != c or mut:
                        if not re.match(r"^\w+$", an):
                            problems.append((f, "parameter pattern %s" % a))
                        else:
                            sig = re.sub(r"\b%s\b(?=\s*:)" % re.escape(a), c, sig, 1)
                            pre += "let %s%s = %s;\n" % ("mut " if mut else "", an, c)
        ext = f.id in external or "assumed" in f.opts
        head = []
        if f.attr:
            head.append(f.attr.rstrip())
        if ext and "external_body" not in f.attr:
            head.append("#[verifier::external_body]")
        vis = "" if f.opts.get("vis") == "none" else "pub "
        ret = r["ret"].strip()
        if "rettype" in f.opts:
            ret = f.opts["rettype"]
        line = vis + sig
        if ret:
            line += " -> (%s: %s)" % (f.ret or "vx_r", ret)
        head.append(line)
        if where:
            head.append(where)
        spec = "\n".join(f.sections.get("spec", []))
        if spec.strip():
            head.append(spec)

        b0 = baseline().get("%s %s" % (u.name, f.sel), {})
        newlits = lit_hints(body_lits(r) - set(b0["lits"])) if "lits" in b0 else ""

        def sub(m):
            k, n = m.group(1), m.group(2)
            key = {"fnstart": "start", "loopspec": "loop", "loopstart": "loopstart"}.get(k, k)
            t = "\n".join(f.sections.get((key + " " + n).strip(), []))
            if k == "fnstart":
                extra = "proof { assert(false); }\n" if vacuity else ""
                return "\n" + pre + newlits + t + "\n" + extra
            if k == "loopstart" and newlits:
                return "\n" + newlits + t + "\n"
            if not t.strip():
                return ""
            return "\n" + t + "\n"

        body = r["body"]
        # loop specifications sit between the loop header and its body
        def place(b):
            # `... { vxm!{ loopspec k }; rest` -> `... <spec> { rest`
            pat = re.compile(r"\{\s*vxm\s*!\s*\{\s*loopspec\s*([0-9]+)\s*\}\s*;?")
            def s2(m):
                t = "\n".join(f.sections.get("loop " + m.group(1), []))
                return "\n" + t + "\n{\n"
            b = pat.sub(s2, b)
            pat = re.compile(r"\{\s*vxm\s*!\s*\{\s*closure\s*([0-9]+)\s*\}\s*;?")
            def s3(m):
                t = "\n".join(f.sections.get("closure " + m.group(1), []))
                return "\n" + t + "\n{\n"
            return pat.sub(s3, b)

        body = MARK.sub(sub, place(body))
        for key, ls in f.sections.items():
            k, _, rx = key.partition(" ")
            if k in ("after", "before"):
                m = re.search("^[^\\n]*" + rx + "[^\\n]*$", body, re.M)
                if not m:
                    hints_missing.append((f, rx))
                    continue
                at = m.end() if k == "after" else m.start()
                body = body[:at] + "\n" + "\n".join(ls) + "\n" + body[at:]
        a0 = lineno[0]
        emit("\n".join(head) + "\n" + (body if not ext else "{ unimplemented!() }") + "\n")
        spans.append((a0, lineno[0] - 1, f))
    return "\n".join(out), spans, problems, hints_missing


def classify(msg):
    if any(x in msg for x in RLIMIT):
        return "rlimit"
    if any(x in msg for x in SEMANTIC):
        return "semantic"
    return "dialect"


def verus(path, rlimit, threads, timeout):
    cmd = ["verus", path, "--output-json", "--time-expanded", "--error-format=json", "--multiple-errors", "4",
           "--rlimit", str(rlimit), "--num-threads", str(threads), "--no-report-long-running"]
    env = dict(os.environ)
    env["PATH"] = "/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin:" + env.get("PATH", "")
    env["RUST_MIN_STACK"] = str(256 << 20)  # long if/else chains recurse deeply in the front end
    for k in ("RUSTUP_TOOLCHAIN", "RUSTFLAGS"):
        env.pop(k, None)
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                           timeout=timeout, cwd=os.path.dirname(path), env=env)
    except subprocess.TimeoutExpired:
        return {"cmd": " ".join(cmd), "timeout": True, "wall": time.time() - t0, "json": None, "diags": []}
    diags = []
    raw = []
    for l in p.stderr.split("\n"):
        l = l.strip()
        if l.startswith("{"):
            try:
                d = json.loads(l)
                if d.get("level") == "error" and not d["message"].startswith("aborting due"):
                    diags.append(d)
                continue
            except ValueError:
                pass
        if l:
            raw.append(l)
    js = None
    k = p.stdout.find("{")
    if k >= 0:
        try:
            js = json.loads(p.stdout[k:])
        except ValueError:
            pass
    return {"cmd": " ".join(cmd), "timeout": False, "wall": time.time() - t0, "json": js, "diags": diags,
            "rc": p.returncode, "raw": "\n".join(raw)[-3000:]}


def locate(d, spans):
    """The extracted function (or None) a diagnostic belongs to."""
    lines = []
    for s in d["spans"]:
        lines.append((not s["is_primary"], s["line_start"]))
        e = s.get("expansion")
        while e:
            lines.append((2, e["span"]["line_start"]))
            e = e["span"].get("expansion")
    lines.sort()
    for _, l in lines:
        for a, b, f in spans:
            if a <= l <= b:
                return f
    return None


ASSUME = re.compile(r"\b(assume|admit)\s*\(|external_body|assume_specification|#\[verifier::(external|truncate|allow)|\baxiom\b")


def run_unit(u, workdir, threads=2, timeout=400, vacuity=True):
    """Verify one unit.  Result: per function status ok | failed | undecided, plus statistics."""
    vb = build.vxt()
    ex = extract(u, vb)
    base = json.load(open(BASE)) if os.path.exists(BASE) else {}
    os.makedirs(workdir, exist_ok=True)
    res = {"unit": u.name, "fns": {}, "verified": 0, "errors": 0, "smt_ms": 0, "wall": 0.0, "cmds": [],
           "problems": [], "unit_errors": [], "assumptions": [], "extraction": {}, "undecided_unit": None, "breakdown": []}
    for e in ex["errors"]:
        res["problems"].append("source not parsed: " + e)
    for f in u.fns():
        r = ex["items"].get(f.id, {})
        key = "%s %s" % (u.name, f.sel)
        st = {"sel": f.sel, "file": r.get("file", f.file), "line": r.get("line"), "props": u.fn_props(f),
              "status": "ok", "errors": [], "why": None, "loops": r.get("loops"), "closures": r.get("closures"),
              "rules": r.get("rules"), "inlined": r.get("inlined"), "external": "external_body" in f.attr}
        b = base.get(key)
        if r.get("found") and b:
            st["same_shape"] = (b["loops"], b["closures"]) == (r["loops"], r["closures"])
        else:
            st["same_shape"] = bool(r.get("found"))
        if "assumed" in f.opts:
            st["external"], st["assumed_by"] = True, f.opts["assumed"]
        res["fns"][f.id] = st
    external = set()
    for rounds in range(8):
        text, spans, problems, missing = gen(u, ex, external)
        fatal = None
        for f, t in problems:
            if f is None:
                fatal = t
            else:
                st = res["fns"][f.id]
                if st["status"] == "ok":
                    st["status"], st["why"] = "undecided", t
        if fatal:
            res["undecided_unit"] = fatal
            break
        path = os.path.join(workdir, u.name + ".rs")
        open(path, "w").write(text)
        v = verus(path, u.rlimit, threads, timeout)
        res["cmds"].append(v["cmd"])
        res["wall"] += v["wall"]
        if v["timeout"]:
            res["undecided_unit"] = "verifier time-out"
            break
        dialect = []
        for d in v["diags"]:
            k = classify(d["message"]) if not d.get("code") else "dialect"
            if k == "dialect":
                dialect.append(d)
        js = v["json"]
        if js is None or dialect or js["verification-results"].get("encountered-vir-error"):
            newly = set()
            for d in dialect:
                f = locate(d, spans)
                if f is not None and f.id not in external and "assumed" not in f.opts:
                    newly.add(f.id)
                    st = res["fns"][f.id]
                    st["status"], st["why"] = "undecided", "outside the verifier's reach: " + d["message"][:300]
                    st["rendered"] = d.get("rendered", "")[:3000]
            if not newly:
                res["undecided_unit"] = "verifier rejected the generated file: " + "; ".join(
                    d["message"][:200] for d in (dialect or v["diags"])[:4]) + v.get("raw", "")[-500:]
                break
            external |= newly
            continue
        if "panicked at" in v.get("raw", "") or (v["rc"] != 0 and not v["diags"]):
            res["undecided_unit"] = "the verifier broke off: " + v.get("raw", "")[:300]
            break
        res["undecided_unit"] = None
        vr = js["verification-results"]
        res["verified"], res["errors"] = vr["verified"], vr["errors"]
        res["smt_ms"] = js["times-ms"]["smt"]["total"]
        for m in js["times-ms"]["smt"].get("smt-run-module-times", []):
            for b in m.get("function-breakdown", []):
                res["breakdown"].append({"fn": b["function"].split("::", 1)[-1], "ms": b["time-micros"] / 1000.0,
                                         "rlimit": b["rlimit"], "ok": b["success"]})
        for d in v["diags"]:
            k = classify(d["message"])
            f = locate(d, spans)
            e = {"kind": k, "message": d["message"], "rendered": d.get("rendered", "")[:4000]}
            if f is None:
                res["unit_errors"].append(e)
                continue
            st = res["fns"][f.id]
            st["errors"].append(e)
            if k == "rlimit":
                if st["status"] == "ok":
                    st["status"], st["why"] = "undecided", "solver resource limit"
            elif st["status"] != "undecided" or st["why"] == "solver resource limit":
                st["status"] = "failed"
        break
    else:
        res["undecided_unit"] = "too many functions outside the verifier's reach"
    if not res["undecided_unit"]:
        for f, rx in missing:
            res["fns"][f.id]["same_shape"] = False
    for st in res["fns"].values():
        if st["status"] == "failed" and not st["same_shape"]:
            st["status"] = "undecided"
            st["why"] = "the function has a different loop/closure structure than the one its contract was written for"
        if res["undecided_unit"] and st["status"] == "ok":
            st["status"], st["why"] = "undecided", res["undecided_unit"]
    # what is assumed in the generated text
    if not res["undecided_unit"]:
        lines = text.split("\n")
        for i, l in enumerate(lines):
            s = l.split("//")[0]
            if ASSUME.search(s):
                j = i
                while j + 1 < len(lines) and not re.search(r"\bfn\b|\bstruct\b|\btype\b", lines[j]):
                    j += 1
                res["assumptions"].append(re.sub(r"\s+", " ", lines[j].strip())[:160])
        if vacuity:
            res["vacuity"] = run_vacuity(u, ex, external, workdir, threads, timeout)
    return res


def run_vacuity(u, ex, external, workdir, threads, timeout):
    """Every contracted function with `assert(false)` as its first statement must fail."""
    text, spans, _, _ = gen(u, ex, external, vacuity=True)
    path = os.path.join(workdir, u.name + "_vac.rs")
    open(path, "w").write(text)
    v = verus(path, u.rlimit, threads, timeout)
    want = {f.id for _, _, f in spans if f.id not in external and "external_body" not in f.attr and "assumed" not in f.opts}
    got = set()
    for d in v["diags"]:
        f = locate(d, spans)
        if f is not None and d["message"].startswith("assertion failed"):
            got.add(f.id)
    return {"expected": len(want), "reachable": len(want & got),
            "vacuous": sorted(f.sel for _, _, f in spans if f.id in want - got)}


def write_baseline():
    """(development only) record loop/closure counts and the function names of the current tree"""
    vb = build.vxt()
    names, base = set(), {}
    for u in load_units():
        ex = extract(u, vb)
        for a in ex["all_fns"]:
            names.add(a.split("::")[-1].split(" ")[-1])
        for f in u.fns():
            r = ex["items"][f.id]
            if r.get("found"):
                base["%s %s" % (u.name, f.sel)] = {"loops": r["loops"], "closures": r["closures"], "lits": sorted(body_lits(r))}
            else:
                print("LOST", u.name, f.sel)
    from . import props
    json.dump(props.literals(build.REPO), open(os.path.join(UNITS, "literals.json"), "w"), indent=0, sort_keys=True)
    json.dump(sorted(names), open(os.path.join(UNITS, "known_fns.json"), "w"), indent=0)
    json.dump(base, open(BASE, "w"), indent=1, sort_keys=True)
