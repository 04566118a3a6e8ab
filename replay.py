#!/usr/bin/env python3
"""replay.py FILE [--verbose]: rebuilds against /repo and replays one recorded run."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
from props import PROPS

path = sys.argv[1]
prop = [l.split()[1] for l in open(path) if l.startswith("prop ")][0]
exe = check.build(PROPS[prop]["binary"])
env = dict(os.environ, LC_ALL="C")
sys.exit(subprocess.run([exe, "--replay", path, "--verbose", "1" if "--verbose" in sys.argv else "0"], env=env).returncode)
