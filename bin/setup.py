#!/usr/bin/env python3
"""Checks that the tools are there and that the specifications parse; nothing else has to be built
in advance (every check builds its harness from /repo's working tree)."""
import os
import shutil
import subprocess
import sys

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
bad = [t for t in ("java", "clang++-18", "tlc", "tla-sany") if not shutil.which(t)]
for f in sorted(os.listdir(SPEC)):
    if f.endswith(".tla") and not bad:
        r = subprocess.run(["tla-sany", f], cwd=SPEC, capture_output=True, text=True)
        if r.returncode:
            bad.append(f + "\n" + r.stdout[-1000:])
print("missing or broken:\n" + "\n".join(bad) if bad else "ok")
sys.exit(1 if bad else 0)
