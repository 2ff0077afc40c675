#!/usr/bin/env python3
"""Nothing to build: checks that the tools are there and that every specification parses."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
spec = os.path.join(HERE, "spec")
bad = 0
for f in sorted(os.listdir(spec)):
    if f.endswith(".tla"):
        r = subprocess.run(["java", "-cp", JAR, "tla2sany.SANY", f], cwd=spec, capture_output=True, text=True)
        if r.returncode or "Semantic errors" in r.stdout or "***Parse Error***" in r.stdout:
            print(f, r.stdout[-1500:], r.stderr[-500:])
            bad = 1
sys.exit(bad)
