#!/usr/bin/env python3
"""Run the check of one property:  check.py PROPERTY [replay FILE]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from dst import orch, props  # noqa: E402

if __name__ == "__main__":
  sys.exit(props.get(sys.argv[1]).main(sys.argv[2:]))
