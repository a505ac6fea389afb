#!/usr/bin/env python3
"""Development helper: lemmavac.py UNIT… — inserts assert(false) at the end of every lemma of a generated unit
(/tmp/v/work/UNIT.rs, written by dev.py) and lists the lemmas in which Verus accepts it: those have contradictory
requirements (or end in an unreachable place) and would prove anything."""
import re, subprocess, sys, os, json
for n in [a for a in sys.argv[1:] if a[0] != "-"]:
    src = open("/tmp/v/work/%s.rs" % n).read()
    out = []; i = 0; names = []; pos = 0
    for m in re.finditer(r"(?:pub )?(?:broadcast )?proof fn (\w+)", src):
        if re.search(r"external_body|axiom", src[max(0, m.start() - 80):m.start()].split("\n")[-2] + src[max(0, m.start() - 60):m.start()].split("\n")[-1]): continue
        # body: first '{' at depth 0 preceded by newline start or after ensures
        j = m.end(); d = 0; body = None
        # find a line that starts with '{' (after optional indent) at depth 0, or a body on the signature line
        k = j
        while k < len(src):
            c = src[k]
            if c in "([": d += 1
            elif c in ")]": d -= 1
            elif c == "{":
                ls = src.rfind("\n", 0, k) + 1
                if d == 0 and src[ls:k].strip() == "" or (d == 0 and src[m.start():k].count("\n") == 0): body = k; break
                d += 1
            elif c == "}": d -= 1
            elif c == ";" and d == 0: break
            k += 1
        if body is None or '->' in src[j:src.find(chr(10), j)]: continue
        d = 0; k = body
        while True:
            c = src[k]
            if c == "{": d += 1
            elif c == "}":
                d -= 1
                if d == 0: break
            k += 1
        names.append((m.group(1), k))
    res = []; last = 0
    for nm, k in names:
        res.append(src[last:k]); res.append(" ; assert(false); /*VAC %s*/ " % nm); last = k
    res.append(src[last:])
    f = "/tmp/v/work/%s_lv.rs" % n
    open(f, "w").write("".join(res))
    p = subprocess.run(["verus", f, "--rlimit", "30", "--multiple-errors", "0", "--num-threads", "8", "--expand-errors"][:4] + ["--num-threads", "8"], capture_output=True, text=True, env=dict(os.environ, RUST_MIN_STACK="268435456"))
    failed = set(x for b in p.stderr.split("\n\n") if "assertion failed" in b for x in re.findall(r"/\*VAC (\w+)\*/", b))
    print(n, p.stdout.strip().split("\n")[-1], "lemmas", len(names), "accepted:", [a for a, _ in names if a not in failed])
    if "verification results" not in p.stdout: print(p.stderr[-2500:])
    if "-k" not in sys.argv: os.remove(f)
