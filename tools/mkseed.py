#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ for every bug described in tools/seeds/bugs.py (patch against /repo HEAD)."""
import json, os, shutil, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "seeds"))
import bugs
out = os.path.join(os.path.dirname(here), "seeded")
for b in bugs.BUGS:
    if len(sys.argv) > 1 and b["id"] not in sys.argv[1:]:
        continue
    d = os.path.join(out, b["id"])
    os.makedirs(d, exist_ok=True)
    w = "/tmp/mkseed"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    patch = ""
    texts = {}
    for f, old, new in b["edits"]:
        orig = subprocess.check_output(["git", "-C", "/repo", "show", "HEAD:" + f], text=True)
        t = texts.get(f, (orig, orig))
        assert t[1].count(old) == 1, (b["id"], f, t[1].count(old), old)
        texts[f] = (orig, t[1].replace(old, new))
    for f, (o, n) in texts.items():
        open(w + "/a", "w").write(o)
        open(w + "/b", "w").write(n)
        p = subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, w + "/a", w + "/b"], stdout=subprocess.PIPE, text=True)
        patch += "diff --git a/%s b/%s\n%s" % (f, f, p.stdout)
    open(d + "/patch.diff", "w").write(patch)
    open(d + "/main.rs", "w").write("mod common;\nuse common::*;\n#[allow(unused_imports)]\nuse octane::prelude::*;\n" + b["main"].strip() + "\n")
    shutil.copy(here + "/seeds/common.rs", d)
    shutil.copy(here + "/seeds/demo.sh", d)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(w, ignore_errors=True)
