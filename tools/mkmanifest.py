#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the units (which properties have functions under contract)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from driver import vx
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
 "C20": "Isolation between concurrent connections quantifies over schedules of the tokio multi-threaded runtime; every task is a boxed dyn Future spawned through tokio::spawn. Verus has no contract for tokio's executor or for Arc<dyn Fn> shared between tasks, so no contract within reach expresses it (sequential per-connection obligations are in C15/C16).",
 "C21": "The TLS acceptors are thin calls into rustls/openssl/native-tls; their guarantees live in those dependencies (and in feature sets that do not build together offline), so contracts on Octane's own functions would only restate assumed contracts.",
 "C22": "The macros are token-stream transformers and macro_rules!; Verus has no semantics for proc_macro::TokenStream, and a contract on the expansion of every possible invocation is not expressible.",
}
units = vx.load_units()
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    us = [u for u in units if i in u.all_props()]
    fns = [f for u in us for f in u.fns() if i in (f.props or u.props)]
    names = sorted({f.sel for f in fns})
    if us:
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": "contract-based deductive verification (Verus) of functions extracted from /repo on every run, with a bounded search on the compiled crate for failing inputs",
            "level": "proof",
            "level_note": "Under contract: %s (units %s). Parts of the property outside those functions are covered only by the bounded stand-in; assumed contracts are listed in the evidence and in DESIGN.md." % (", ".join(names), ", ".join(u.name for u in us))})
    else:
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": "bounded check of the real functions against executable contracts (bounded stand-in; no function of this property is inside Verus' reach yet)",
            "level": "exploration",
            "level_note": "Bounded: generated inputs against the compiled crate; never counted as proved."})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks use /repo's public API and extract its source; /repo carries only fix: commits."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
