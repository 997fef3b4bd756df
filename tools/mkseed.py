"""mkseed.py SPECFILE: spec = python file defining SEEDS = [dict(name, prop, edits=[(file, old, new)], needs, breaks, demo)]"""
import json, os, shutil, subprocess, sys, tempfile, runpy
SE = "/verif/seeded"
only = sys.argv[2:]
for s in runpy.run_path(sys.argv[1])["SEEDS"]:
    if only and s["name"] not in only:
        continue
    w = tempfile.mkdtemp(prefix="mkseed-")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
        for fn, old, new in s["edits"]:
            p = os.path.join(w, "r", fn)
            t = open(p, encoding="utf-8", newline="").read()
            if t.count(old) != 1:
                raise SystemExit("%s: %d matches in %s of %r" % (s["name"], t.count(old), fn, old))
            open(p, "w", encoding="utf-8", newline="").write(t.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w + "/r", "diff"])
        d = os.path.join(SE, s["name"])
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "wb").write(diff)
        # does it change lines of the original repository?
        base = subprocess.check_output(["git", "-C", w + "/r", "rev-list", "--max-parents=0", "HEAD"], text=True).strip()
        for fn, old, new in s["edits"]:
            orig = subprocess.check_output(["git", "-C", w + "/r", "show", base + ":" + fn], text=True)
            gone = [l for l in old.splitlines() if l.strip() and l not in new.splitlines()]
            mine = [l for l in gone if l not in orig.splitlines()]
            if mine:
                print(s["name"], "changes lines not in base:", mine)
            if not gone:
                print(s["name"], fn, "only adds lines")
        with open(d + "/demo.py", "w") as f:
            f.write("import os, sys\nsys.path.insert(0, os.getcwd())\n" + s["demo"].lstrip("\n"))
        with open(d + "/demo.sh", "w") as f:
            f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    finally:
        shutil.rmtree(w)
