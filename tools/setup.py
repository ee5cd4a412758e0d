#!/usr/bin/env python3
"""setup_cmd: checks that the toolchain is there (each check builds what it needs from /repo's current tree)."""
import shutil, subprocess, sys, os
for t in ("java", "cargo"):
    if not shutil.which(t):
        sys.exit("missing " + t)
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
