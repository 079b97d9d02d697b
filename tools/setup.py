#!/usr/bin/env python3
"""Checks that what the checks need is there (nothing has to be built ahead: each check builds from /repo)."""
import os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ("clang", "clang++"):
    if not shutil.which(t): sys.exit("missing " + t)
os.makedirs(os.path.join(V, "build"), exist_ok=True); os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
print("ok:", subprocess.check_output(["clang", "--version"]).decode().splitlines()[0])
