#!/usr/bin/env python3
"""tools/dump.py PID [SEED]: run the quick check of PID and print its trace events (for looking at coverage)."""
import glob, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "bin"))
from vm import run, props
r = run.Runner(sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 1, "quick")
try:
    props.PROPS[sys.argv[1]].run(r)
    for f in sorted(glob.glob(r.dir + "/*.ndjson")):
        sys.stdout.write(open(f).read())
finally:
    r.close()
