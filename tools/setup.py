#!/usr/bin/env python3
"""Checks that the tools are there and the specifications parse."""
import glob, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bad = 0
for t in ("gcc", "java", "leg"):
    if subprocess.run(["which", t], capture_output=True).returncode:
        print("missing tool: " + t)
        bad = 1
for m in sorted(glob.glob(os.path.join(V, "spec", "*.tla"))):
    p = subprocess.run(["tla-sany", os.path.basename(m)], cwd=os.path.join(V, "spec"), capture_output=True, text=True)
    if p.returncode or "*** Errors" in p.stdout:
        print("specification %s does not parse\n%s" % (m, p.stdout[-2000:]))
        bad = 1
sys.exit(bad)
