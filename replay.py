#!/usr/bin/env python3
"""replay.py FILE: builds the simulator from /repo and replays FILE. Exit 1: the violation is reproduced."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sim"))
sys.path.insert(0, HERE)
import build, check
b = build.build("/repo")
p = subprocess.run([b, "replay", sys.argv[1]] + sys.argv[2:], stdout=subprocess.PIPE, text=True)
print(check.symbolize(b, p.stdout))
sys.exit(p.returncode)
