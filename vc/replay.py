#!/usr/bin/env python3-vt
"""replay.py FILE: runs the failing inputs of a replay file again on the real code of /repo."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import harness
d = json.load(open(sys.argv[1]))
os.makedirs(os.path.dirname(HERE) + "/build/replay", exist_ok=True)
exe, dropped = harness.build(os.path.dirname(HERE) + "/build/replay")
srv = harness.Server(exe)
for f in d["failing_inputs"]:
    print(json.dumps({"op": f["op"], "expected": f["expected"], "recorded": f["got"], "now": srv.call(f["op"], **f["args"])}))
for o in d["failed_obligations"]:
    print("failed obligation:", o["name"])
    print("   ", o["detail"][:2000])
srv.close()
