#!/usr/bin/env python3
"""Builds the harnesses from /repo and checks that the specification parses."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, conf
for h in sorted(f[:-2] for f in os.listdir(os.path.join(build.VERIF, "harness")) if f.endswith(".c")):
    print(build.build(h))
bad = 0
for m in sorted(f for f in os.listdir(conf.SPEC) if f.endswith(".tla")):
    r = subprocess.run(["java", "-cp", conf.CP, "tla2sany.SANY", m], cwd=conf.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or "rror" in r.stdout:
        print(m, r.stdout[-1500:])
        bad = 1
sys.exit(bad)
