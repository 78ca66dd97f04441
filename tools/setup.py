#!/usr/bin/env python3
"""Checks that the tools are usable: builds the harness and parses the specifications"""
import os
import subprocess
import sys

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, ROOT)
import check  # noqa: E402

for kind in ("stable", "release", "plain", "nightly"):
    check.build(kind)
for f in sorted(os.listdir(check.SPEC)):
    if f.endswith(".tla"):
        r = subprocess.run(["tla-sany", f], cwd=check.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or "Fatal errors" in r.stdout or "*** Errors" in r.stdout:
            sys.exit(f"{f} doesn't parse:\n{r.stdout}")
