#!/usr/bin/env python3
"""Nothing is built ahead: every check builds what it needs from /repo's working tree. This only
verifies that the tools are there."""
import subprocess, sys
for c in (["cargo", "kani", "--version"], ["cargo", "--version"]):
    p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(" ".join(c), "->", p.stdout.strip().splitlines()[-1] if p.stdout.strip() else p.returncode)
    if p.returncode != 0:
        sys.exit(1)
