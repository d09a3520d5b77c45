#!/usr/bin/env python3
"""replay.py FILE: rebuilds from /repo and replays a recorded violation."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, check
from props import PROPS
r = json.load(open(sys.argv[1]))
exe = build.TARGETS[r["target"]]()
exe = [exe] if isinstance(exe, str) else exe
env = dict(os.environ); env.update(PROPS[r["property"]].get("env", {})); env["PYTHONHASHSEED"] = "0"; env["MALLOC_ARENA_MAX"] = "1"
rp = check.Replayer(exe, r["property"], env)
o = rp(r["choices"]); rp.close()
print(o["log"])
print("status %s class %s digest %s (%s)" % (o["status"], o["cls"], o["digest"], "same" if o["digest"] == r["digest"] else "differs from the record"))
sys.exit(1 if o["status"] == 2 else 0)
