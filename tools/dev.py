#!/usr/bin/env python3
"""Development helper: dev.py unit NAME | show NAME | baseline"""
import os, sys, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from driver import build, vx
cmd = sys.argv[1]
if cmd == "baseline":
    vx.write_baseline()
elif cmd == "show":
    u = vx.Unit(sys.argv[2]); ex = vx.extract(u, build.vxt())
    print(vx.gen(u, ex)[0])
elif cmd == "unit":
    for n in [a for a in sys.argv[2:] if a[0] != '-']:
        u = vx.Unit(n)
        r = vx.run_unit(u, "/tmp/v/work", 6, 600, "--novac" not in sys.argv)
        print("== %s verified %d errors %d smt %d ms wall %.1f undecided=%s vac=%s" % (n, r["verified"], r["errors"], r["smt_ms"], r["wall"], r["undecided_unit"], r.get("vacuity")))
        if r["undecided_unit"]: os.system("cd /tmp/v/work && RUST_MIN_STACK=268435456 verus %s.rs 2>&1 | head -90" % n); continue
        for st in r["fns"].values():
            if st["status"] != "ok":
                print(st["sel"], st["status"], st["why"], st.get("rendered", ""))
                for e in st["errors"]: print(e["rendered"])
        for e in r["unit_errors"]: print("UNIT", e["rendered"])
        for b in sorted(r["breakdown"], key=lambda b: -b["ms"])[:5]: print("  slow", b)
        for p in r["problems"]: print("problem", p)
