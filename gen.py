#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json
import subprocess

from props import COMMON, PROPS

try:
    from na import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = []

HOOKS = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif:"],
                       capture_output=True, text=True).stdout.split()
NOTE = ("Bounded: the solver decides every assertion, panic and overflow of the real code for all values within the "
        "stated bounds. Trusts Kani, CBMC, its SAT solver and the harness's reference; counterexamples are replayed natively. ")

with open("properties.jsonl", "w") as f:
    for pid, p in list(PROPS.items()) + [(n["id"], n) for n in NOT_APPLICABLE]:
        f.write(json.dumps(dict(
            id=pid, title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]),
            why_tests_cant=p["why"],
            anchors=dict(files=p["files"],
                         mechanism=[dict(name=n, where=w) for n, w in p["mechanism"]],
                         hook_needed="cfg libopenraw_verif: " + ", ".join(p["hooks"]) if p.get("hooks") else None))) + "\n")
        assert len(p["title"]) <= 80, pid
        assert all(__import__("os").path.exists("/repo/" + x) for x in p["files"]), pid

m = dict(
    version=1,
    setup_cmd="python3 setup.py",
    hooks=dict(guard="libopenraw_verif",
               enable='RUSTFLAGS=\'--cfg libopenraw_verif --cfg libopenraw_verif="GROUP"\' with the groups a check needs '
                      "(props.py); check.py does it",
               source_commits=HOOKS[::-1]),
    checks=[dict(property=pid, quick_cmd=f"python3 check.py {pid} --tier quick",
                 thorough_cmd=f"python3 check.py {pid} --tier thorough",
                 evidence_file=f"evidence/{pid}.json",
                 technique="bounded symbolic execution of the real code (Kani/CBMC, SAT)",
                 level="model_checking", level_note=NOTE + "Bounds: " + p["bounds"]) for pid, p in PROPS.items()],
    not_applicable=[dict(property=n["id"], reason=n["reason"]) for n in NOT_APPLICABLE],
)
with open("MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")


# The generated part of DESIGN.md.
import os
out = ["## Properties", ""]
for pid, p in PROPS.items():
    out += [f"### {pid} {p['title']}", "", p["statement"], "",
            f"- For: {p['text']}", f"- Why tests can't: {p['why']}",
            "- Code: " + ", ".join(f"`{x}`" for x in p["functions"]), f"- Bounds: {p['bounds']}"]
    for a in p["assumptions"]:
        if a not in COMMON:
            out.append(f"- Assumes: {a}")
    seeds = [s for s in sorted(os.listdir("seeded")) if s.startswith(pid + "-")]
    for s in seeds:
        meta = json.load(open(f"seeded/{s}/meta.json"))
        out.append(f"- Planted `{s}`: {meta['what_it_breaks']}, needs {meta['needs']}. "
                   + ("Not caught." if meta.get("missed") else "Caught."))
    out.append("")
out += ["## Not applicable", ""]
for n in NOT_APPLICABLE:
    out.append(f"- {n['id']} {n['title']}: {n['reason']}")
t = open("DESIGN.md").read()
a, b = t.index("<!-- generated -->"), t.index("<!-- end -->")
open("DESIGN.md", "w").write(t[:a] + "<!-- generated -->\n" + "\n".join(out) + "\n" + t[b:])
