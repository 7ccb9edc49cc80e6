#!/usr/bin/env python3
"""mkseed.py ID: reads a python dict on stdin {file, old, new, property, needs, breaks, demo} and
writes /verif/seeded/ID (patch against /repo's HEAD)."""
import json, os, subprocess, sys, tempfile, shutil
sid = sys.argv[1]
d = eval(sys.stdin.read())
R = os.environ.get("VERIF_REPO", "/repo")
w = tempfile.mkdtemp()
edits = d.get("edits") or [(d["file"], d["old"], d["new"])]
for f, old, new in edits:
    src = os.path.join(R, f)
    for side in "ab":
        dst = os.path.join(w, side, f)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        if not os.path.exists(dst):
            shutil.copy(src, dst)
    b = os.path.join(w, "b", f)
    s = open(b).read()
    assert s.count(old) == d.get("count", 1), (f, s.count(old))
    open(b, "w").write(s.replace(old, new))
p = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=w, capture_output=True, text=True).stdout
p = p.replace("diff --git a/a/", "diff --git a/")
lines = []
o = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", sid)
os.makedirs(o, exist_ok=True)
open(os.path.join(o, "patch.diff"), "w").write(p)
open(os.path.join(o, "demo.sh"), "w").write(
    '#!/bin/bash\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES= exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
open(os.path.join(o, "demo.py"), "w").write(d["demo"].lstrip("\n"))
json.dump(dict(property=d["property"], needs=d["needs"], what_it_breaks=d["breaks"]),
          open(os.path.join(o, "meta.json"), "w"), indent=1)
shutil.rmtree(w)
r = subprocess.run(["git", "-C", R, "apply", "--check", os.path.join(o, "patch.diff")])
print(sid, "applies" if r.returncode == 0 else "DOES NOT APPLY")
