#!/usr/bin/env python3
"""Nothing is prebuilt: every check builds what it needs from /repo. Verify the tools are there."""
import shutil, sys, os
missing = [t for t in ("gfortran", "git") if not shutil.which(t)]
if not os.path.exists("/opt/veriftools/pyvenv/bin/python"):
    missing.append("python3-vt")
print("missing:", missing)
sys.exit(1 if missing else 0)
