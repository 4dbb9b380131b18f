#!/usr/bin/env python3
"""Nothing to install: checks build what they need from /repo. Verifies the tools are there."""
import os
import sys
for p in ("/opt/vp/venv/bin/python", "/usr/lib/llvm-20/bin/clang++", "/repo/frontend/heir"):
  if not os.path.exists(p):
    sys.exit("missing: " + p)
print("ok")
