#!/usr/bin/env python3
"""seed.py ID: checks a planted bug in a scratch copy, then runs the check of
its property on it (in /repo, undone afterwards)."""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif/seeded/"
def sh(c, cwd="/repo", t=900):
    r = subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
    return r.returncode, r.stdout + r.stderr
def one(i, skip):
    d = V + i
    meta = json.load(open(d + "/meta.json"))
    res = {}
    assert not sh("git status --porcelain")[1].strip(), "repo not clean"
    if not skip:
        rc, o = sh(f"bash {d}/demo.sh"); res["demo_clean"] = rc
        if rc: print(o[-1500:])
    rc, o = sh(f"git apply {d}/patch.diff")
    if rc: print(i, "DOES NOT APPLY", o); return
    try:
        if not skip:
            rc, o = sh(f"bash {d}/demo.sh"); res["demo_bug"] = rc
            if rc == 0: print(o[-1500:])
            print("   demo:", o.strip().splitlines()[-3:])
            rc, o = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seed-out.json")
            b = json.load(open("/tmp/seed-out.json")) if rc == 0 else {}
            base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            res["tests_broken"] = sorted(base - set(b.get("passed", [])))[:4]
        rc, o = sh(f"python3 check.py {meta['property']}", cwd="/verif")
        res["check"] = rc
        res["viol"] = [l for l in o.splitlines() if l.startswith("VIOLATION")]
        if rc != 1: print(o[-2500:])
    finally:
        sh("git checkout -- .")
    print(i, res, flush=True)
skip = "-s" in sys.argv
for i in [a for a in sys.argv[1:] if a != "-s"] or sorted(os.listdir(V)):
    one(i, skip)
sh("bash /opt/vp/build.sh")
