#!/usr/bin/env python3
"""Builds all harnesses once (the checks rebuild what changed by themselves)."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
done = set()
rc = 0
for p in sorted(CHECKS):
    h = CHECKS[p]["harness"]
    if h not in done:
        done.add(h)
        rc |= subprocess.run([sys.executable, os.path.join(V, "run.py"), p, "--build-only"]).returncode
sys.exit(1 if rc else 0)
