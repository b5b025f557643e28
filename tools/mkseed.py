#!/usr/bin/env python3
"""mkseed.py SPEC.py: makes planted bugs from SEEDS = [dict(id, prop, file, old, new, needs, breaks, demo)].
`file`, `old`, `new` may be lists."""
import json, os, shutil, subprocess, sys
ns = {}
exec(open(sys.argv[1]).read(), ns)
R = "/repo/"
assert not subprocess.run("git status --porcelain", shell=True, cwd=R, capture_output=True, text=True).stdout.strip()
for s in ns["SEEDS"]:
    d = "/verif/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    fs, os_, ns_ = [x if isinstance(x, list) else [x] for x in (s["file"], s["old"], s["new"])]
    if len(fs) == 1: fs = fs * len(os_)
    for f, o, n in zip(fs, os_, ns_):
        t = open(R + f).read()
        assert t.count(o) == 1, (s["id"], f, t.count(o), o)
        open(R + f, "w").write(t.replace(o, n))
    p = subprocess.run("git diff", shell=True, cwd=R, capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(p)
    subprocess.run("git checkout -q -- .", shell=True, cwd=R, check=True)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.rs", "w").write(s["demo"].lstrip("\n"))
    shutil.copy("/verif/tools/demo.sh", d + "/demo.sh")
    print(s["id"])
