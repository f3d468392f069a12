#!/usr/bin/env python3
"""Warms the Go build cache and checks that the specification parses; the checks themselves rebuild from /repo."""
import os, subprocess, sys, tempfile, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "run"))
import check
w = tempfile.mkdtemp(prefix="vchk-")
try:
    print(check.build(w))
finally:
    shutil.rmtree(w, ignore_errors=True)
