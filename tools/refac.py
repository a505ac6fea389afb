#!/usr/bin/env python3
"""refac.py [ID...]: run the affected checks on behaviour-preserving edits, in private copies."""
import os, subprocess, sys, json
sys.path.insert(0, "/verif")
sys.path.insert(0, "/verif/tools/refac")
W = os.environ.get("REFW", "/tmp/refac")
if len(sys.argv) > 1 and sys.argv[1] == "--inner":
    from edits import R
    from driver import vx
    units = vx.load_units()
    byfile = {}
    for u in units:
        for f in u.fns():
            if "assumed" not in f.opts:
                for p in u.fn_props(f): byfile.setdefault(f.file.replace("expanded:octane_http", "octane_http/src/lib.rs").replace("expanded:octane", "src/router.rs"), set()).add(p)
    for l in open("/verif/properties.jsonl"):
        j = json.loads(l)
        for f in j["anchors"]["files"]: byfile.setdefault(f, set()).add(j["id"])
    claimed = {c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]}
    want = [a for a in sys.argv[2:] if a != "--units"]
    def units_run(id):
        """every unit once: what the deductive tier says about the edit, whatever the property"""
        import concurrent.futures as cf
        from driver import build
        build.vxt()
        us = [u for u in units]
        with cf.ThreadPoolExecutor(5) as ex:
            for u, r in zip(us, ex.map(lambda u: vx.run_unit(u, "/verif/build/work/refac", 2, 400, False), us)):
                bad = ["%s: %s %s" % (s["sel"], s["status"], s["why"] or " / ".join(e["rendered"][:300] for e in s["errors"])) for s in r["fns"].values() if s["status"] != "ok" and not s.get("assumed_by")]
                if r["undecided_unit"]: bad.insert(0, "UNIT UNDECIDED " + str(r["undecided_unit"])[:200])
                bad += ["unit error " + e["rendered"][:200] for e in r["unit_errors"]]
                if bad: print("%-20s %-9s %s" % (id, u.name, "\n      ".join(b.replace("\n", " ")[:400] for b in bad)), flush=True)
    for id, edits in R:
        if want and id not in want: continue
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd="/repo")
        ps = set(); bad = False
        for f, a, b in edits:
            t = open("/repo/" + f).read()
            if t.count(a) != 1: print(id, "EDIT DOES NOT APPLY", f, t.count(a)); bad = True; break
            open("/repo/" + f, "w").write(t.replace(a, b))
            ps |= byfile.get(f, set())
        if bad: continue
        t = subprocess.run(["cargo", "test", "--offline", "-q", "--lib"], cwd="/repo", capture_output=True, text=True)
        if t.returncode: print(id, "TESTS FAIL", t.stdout[-800:], t.stderr[-800:]); continue
        if "--units" in sys.argv:
            print(id, "...", flush=True)
            units_run(id)
            continue
        for p in sorted(ps & claimed):
            c = subprocess.run(["python3", "/verif/check.py", p], capture_output=True, text=True, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            und = [l for l in c.stdout.split("\n") if l.startswith(("undecided", "note", "check error", "VIOLATION", "failed obl"))]
            print("%-20s %s rc=%d %s" % (id, p, c.returncode, " | ".join(x[:230] for x in und)), flush=True)
            if c.returncode: open("%s/log.%s.%s" % (W, id, p), "w").write(c.stdout + c.stderr)
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd="/repo")
else:
    subprocess.run("mkdir -p %s; [ -d %s/repo ] || cp -a /repo %s/repo; cd %s/repo && git checkout -q -- . ; mkdir -p %s/verif; rsync -a --delete --exclude build --exclude target --exclude seeded /verif/ %s/verif/" % ((W,) * 6), shell=True)
    subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s/repo /repo; mount --bind %s/verif /verif; cd /; python3 /verif/tools/refac.py --inner %s" % (W, W, " ".join(sys.argv[1:]))])
