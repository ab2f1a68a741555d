#!/usr/bin/env python3
"""Writes /verif/seeded/* from tools/seeds/*.seed.

A seed file has the fields id, property, needs, breaks, mode (debug, release or miri), then `edit: FILE`
sections, each with the old text, a line `====`, the new text and a line `%%%%`, then `demo:` and the
text of demo.rs."""
import json, os, re, shutil, subprocess, sys, glob
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
only = set(sys.argv[1:])
for f in sorted(glob.glob(os.path.join(here, "seeds", "*.seed"))):
    text = open(f).read()
    head, demo = text.split("\ndemo:\n", 1)
    parts = head.split("\nedit: ")
    meta = dict(l.split(": ", 1) for l in parts[0].strip().splitlines())
    sid = meta["id"]
    if only and sid not in only:
        continue
    tmp = "/tmp/mkseed.tree"
    subprocess.run(["rm", "-rf", "/tmp/mkseed.tree"], check=True)
    subprocess.run(["git", "clone", "-q", "/repo", tmp], check=True)
    for p in parts[1:]:
        name, body = p.split("\n", 1)
        old, rest = body.split("\n====\n", 1)
        new = rest.split("\n%%%%", 1)[0]
        path = os.path.join(tmp, name.strip())
        s = open(path).read()
        assert s.count(old) == 1, (sid, name, s.count(old))
        open(path, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", tmp, "diff"], check=True, capture_output=True, text=True).stdout
    d = os.path.join(root, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.rs"), "w").write(demo)
    mode = meta.get("mode", "debug")
    sh = open(os.path.join(here, "seeds", "miri.sh.in" if mode == "miri" else "demo.sh.in")).read()
    sh = sh.replace("PROFILE", "--release" if mode == "release" else "").replace("MODE", mode)
    open(os.path.join(d, "demo.sh"), "w").write(sh)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": meta["property"], "needs": meta["needs"], "what_it_breaks": meta["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
subprocess.run(["rm", "-rf", "/tmp/mkseed.tree"], check=True)
