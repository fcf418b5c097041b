#!/usr/bin/env python3
"""mkpatch.py <seed dir> : reads edits.json [[file, old, new]...] beside, writes patch.diff against /repo HEAD (edits.json is not kept)"""
import sys, json, subprocess, tempfile, os
d = sys.argv[1]
edits = json.load(sys.stdin)
out = ""
files = {}
for f, old, new in edits:
    if f not in files:
        o = subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + f], capture_output=True, text=True, check=True).stdout
        files[f] = [o, o]
    assert files[f][1].count(old) == 1, (f, old, files[f][1].count(old))
    files[f][1] = files[f][1].replace(old, new)
with tempfile.TemporaryDirectory() as t:
    for f, (o, n) in files.items():
        a, b = os.path.join(t, "a"), os.path.join(t, "b")
        open(a, "w").write(o); open(b, "w").write(n)
        p = subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, a, b], capture_output=True, text=True)
        out += "diff --git a/%s b/%s\n" % (f, f) + p.stdout
os.makedirs(d, exist_ok=True)
open(os.path.join(d, "patch.diff"), "w").write(out)
