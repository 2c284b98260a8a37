#!/usr/bin/env python3
"""replay.py FILE: run a replay file again.  Exit 1 and the violations if it reproduces, 0 if the property held."""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + "/dst")
import minimise

m = json.load(open(sys.argv[1]))
if subprocess.run(["bash", V + "/build.sh"]).returncode:
    sys.exit(2)
v, hs, _ = minimise.execute(m["property"], m["spec"])
for x in v:
    print(x)
print("trace", "identical to the recorded one" if hs == m["tracehash"] else "differs from the recorded one")
if v:
    print(f"VIOLATION property={m['property']} replay={os.path.abspath(sys.argv[1])}")
sys.exit(1 if v else 0)
