#!/usr/bin/env python3
"""setup_cmd: every check builds for itself; this only verifies that the tools they need are here."""
import subprocess, sys
for c in (["cargo", "--version"], ["cargo", "+nightly", "--version"], ["cargo", "+nightly", "miri", "--version"]):
    p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(" ".join(c), "->", p.stdout.strip())
    if p.returncode:
        sys.exit(1)
