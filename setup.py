#!/usr/bin/env python3
"""Checks that the tools the checks need are here. Each check builds what it
needs from /repo itself."""
import subprocess
import sys

for cmd in (["cargo", "kani", "--version"], ["cbmc", "--version"], ["cargo", "+stable", "--version"]):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        sys.exit(f"{cmd}: {r.stdout}{r.stderr}")
    print(cmd[0], cmd[1], r.stdout.strip())
