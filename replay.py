#!/usr/bin/env python3-vt
"""replay.py <kind> <component> <seed> <rounds>: re-runs a failing input of a driver against /repo's current tree."""
import sys, os, tempfile, shutil
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vc import native
d = tempfile.mkdtemp(prefix="verif_replay_")
try:
    exe = native.build(sys.argv[1], "%s/drivers/%s_driver.cpp" % (os.path.dirname(os.path.abspath(__file__)), sys.argv[1]), d)
    f, o = native.run(exe, sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), 300)
    print(o)
finally:
    shutil.rmtree(d, ignore_errors=True)
sys.exit(1 if f else 0)
