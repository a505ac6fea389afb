#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property on /repo's current tree.

1. deductive tier: the functions the property depends on are extracted from /repo, joined with
   their contracts (units/*.vx) and verified by Verus;
2. bounded tier: the harness drives the compiled crate and compares with executable
   specifications (search for a failing input, and stand-in for code outside Verus' reach).

exit 0: held;  exit 1 + VIOLATION line: broken;  anything else: error of the check."""
import concurrent.futures as cf, json, os, subprocess, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from driver import build, vx, props as P

VERIF = build.VERIF
EVID = os.path.join(VERIF, "evidence")


def harness_run(binp, prop, seed, scale, secs, tag, extra=()):
    out = os.path.join(build.BUILD, "run", "%s-%s.json" % (prop, tag))
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if os.path.exists(out):
        os.remove(out)
    cmd = [binp, prop, "--seed", str(seed), "--scale", str(scale), "--secs", str(secs), "--out", out] + list(extra)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=secs * 3 + 120, text=True, errors="replace")
    if not os.path.exists(out):
        # the process died: abort, stack overflow, exit from library code
        return {"cmd": " ".join(cmd), "rc": p.returncode, "crash": p.stderr[-3000:], "sections": [], "failures": []}
    j = json.load(open(out))
    j["cmd"], j["rc"] = " ".join(cmd), p.returncode
    return j


def confirm(binp, prop, seed, scale, f):
    """Replay a failing case; handlers may depend on hash order, so a few attempts are made."""
    for k in range(6):
        try:
            r = harness_run(binp, prop, seed, scale, 30, "replay", ["--section", f["section"], "--index", str(f["index"])])
        except subprocess.TimeoutExpired:
            return True
        if r.get("crash") is not None or r["failures"]:
            return True
    return False


def bounded(prop, tier, seed, boost=1, tag="h"):
    """Returns (list of harness reports, list of confirmed failures, list of notes)."""
    reports, fails, notes = [], [], []
    cfgs = [True] if tier == "quick" or prop not in P.MIN_CONFIG else [True, False]
    for full in cfgs:
        binp = build.harness(full)
        scale = (48 if tier == "quick" else 100) * boost
        secs = (60 if tier == "quick" else 300)
        r = harness_run(binp, prop, seed, scale, secs, "%s-%s" % (tag, "full" if full else "min"), P.dict_args(build))
        r["config"] = "default features + extended_queries" if full else "no default features"
        r["bin"] = binp
        if r.get("crash") is not None:
            again = harness_run(binp, prop, seed, scale, secs, tag + "-again", P.dict_args(build))
            if again.get("crash") is not None:
                fails.append({"section": "process", "index": 0, "input": "harness run " + r["cmd"],
                              "expected": "the process survives", "got": "exit %s: %s" % (r["rc"], r["crash"]), "cmd": r["cmd"]})
            else:
                r = dict(again, config=r["config"], bin=binp)
                notes.append("one harness run died and was repeated")
        for f in r["failures"]:
            if confirm(binp, prop, seed, scale, f):
                f["cmd"] = "%s --section %s --index %s" % (r["cmd"].split(" --out")[0], f["section"], f["index"])
                f["config"] = r["config"]
                fails.append(f)
                break
        else:
            if r["failures"]:
                # not reproducible one by one: repeat the whole run
                again = harness_run(binp, prop, seed, scale, secs, tag + "-again", P.dict_args(build))
                if again["failures"] or again.get("crash") is not None:
                    f = (again["failures"] or r["failures"])[0]
                    f["cmd"], f["config"] = r["cmd"], r["config"]
                    fails.append(f)
                else:
                    notes.append("a failure in section %s did not reproduce and is not reported: %s" % (
                        r["failures"][0]["section"], r["failures"][0]["got"][:300]))
        reports.append(r)
        if fails:
            break
    return reports, fails, notes


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    os.makedirs(EVID, exist_ok=True)
    work = os.path.join(build.BUILD, "work", prop)
    units = [u for u in vx.load_units() if prop in u.all_props()]
    results = []
    with cf.ThreadPoolExecutor(9) as ex:
        hb = ex.submit(bounded, prop, tier, seed)
        if units:
            build.vxt()
        threads = max(1, 6 // max(1, len(units)))
        futs = [(u, ex.submit(vx.run_unit, u, work, threads, 400 if tier == "quick" else 1500, True)) for u in units]
        for u, f in futs:
            results.append((u, f.result()))
        reports, fails, notes = hb.result()

    # ---- deductive outcome for this property
    fn_rows, failed, undecided = [], [], []
    for u, r in results:
        for st in r["fns"].values():
            if prop not in st["props"] or st.get("assumed_by"):
                continue
            fn_rows.append((u, r, st))
            if st["status"] == "failed":
                failed.append((u, r, st))
            elif st["status"] == "undecided":
                undecided.append((u, r, st))
        sem = [e for e in r["unit_errors"] if e["kind"] == "semantic"]
        if sem and not r["undecided_unit"] and all(s["same_shape"] for s in r["fns"].values()):
            st = {"sel": "lemmas over the contracts of unit " + u.name, "file": "units/%s.vx" % u.name, "line": None,
                  "errors": sem, "status": "failed", "props": [prop]}
            failed.append((u, r, st))
        vac = r.get("vacuity")
        if vac and vac["vacuous"] and not r["undecided_unit"]:
            notes.append("contracts of unit %s not shown satisfiable on this tree, their functions count as undecided: %s" % (u.name, ", ".join(vac["vacuous"])))
            for st in r["fns"].values():
                if st["sel"] in vac["vacuous"] and st["status"] == "ok":
                    st["status"], st["why"] = "undecided", "satisfiability of the contract not shown"
                    if prop in st["props"] and not st.get("assumed_by"):
                        undecided.append((u, r, st))
    if (failed or undecided) and not fails:
        # search harder for an input that shows the violation on the real code
        # (for undecided functions the bounded tier is all there is)
        for k in range(3):
            try:
                rep2, fails2, n2 = bounded(prop, tier, seed + 1000 + k, 3, "search")
            except subprocess.TimeoutExpired:
                break
            reports += rep2
            notes += n2
            if fails2:
                fails = fails2
                break
    # ---- evidence
    ev = P.evidence(prop, tier, seed, results, fn_rows, failed, undecided, reports, fails, notes, time.time() - t0)
    path = os.path.join(EVID, prop + ".json")
    json.dump(ev, open(path, "w"), indent=1)
    for l in P.known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, l))
    c = ev["coverage"]
    print("%s: %d/%d obligations discharged by Verus in %d functions (%d undecided), %d bounded cases, %.1f s" % (
        prop, c.get("discharged", 0), c.get("obligations", 0), len(fn_rows), len(undecided), c.get("evaluations", 0), time.time() - t0))
    for u, r, st in undecided:
        print("undecided: %s (%s): %s" % (st["sel"], u.name, st["why"]))
    for n in notes:
        print("note:", n)
    if fails or failed:
        rp = os.path.join(EVID, prop + ".replay.json")
        json.dump({
            "property": prop, "seed": seed, "tier": tier,
            "failing_inputs": fails,
            "failed_obligations": [{"function": st["sel"], "file": st["file"], "line": st["line"], "unit": u.name,
                                    "verifier": r["cmds"][-1] if r["cmds"] else None,
                                    "output": [e["rendered"] for e in st["errors"]]} for u, r, st in failed],
        }, open(rp, "w"), indent=1)
        for f in fails[:1]:
            print("failing input: %s\n  expected: %s\n  got:      %s\n  replay:   %s" % (f["input"][:600], f["expected"][:600], f["got"][:600], f.get("cmd")))
        for u, r, st in failed:
            print("failed obligation in %s (%s):" % (st["sel"], st["file"]))
            for e in st["errors"][:2]:
                print("   " + e["rendered"].replace("\n", "\n   ")[:1200])
        print("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if fails else " no-failing-input-found"))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except build.BuildError as e:
        print("check error:", e)
        sys.exit(3)
    except Exception:
        traceback.print_exc()
        sys.exit(3)
