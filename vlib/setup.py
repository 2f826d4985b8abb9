#!/usr/bin/env python3
"""Checks that the tools the checks need are there and makes the scratch directories."""
import os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("build", "evidence", "replays"):
    os.makedirs(os.path.join(V, d), exist_ok=True)
if not (shutil.which("clang++-18") or shutil.which("clang++")):
    sys.exit("clang++ not found")
print("ready")
