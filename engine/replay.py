#!/usr/bin/env python3-vt
"""replay.py <replay.json>: run the recorded input against the real code, natively."""
import sys, os, json, importlib, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run
d = json.load(open(sys.argv[1]))
mod = importlib.import_module(d["property"])
con = [c for c in mod.CONTRACTS if c.name == d["contract"]][0]
print(json.dumps(d["failed_obligations"], indent=1)[:4000])
if not d["failing_input"]: print("no failing input recorded"); sys.exit(0)
with tempfile.TemporaryDirectory() as t:
    so = os.path.join(t, "h.so"); run.build_native(con.harness, so)
    f, n, last = run.conc_search(con, so, 0, 0, [d["failing_input"]["inputs"]], tmp=t)
    print("reproduced:" if f else "not reproduced", json.dumps(f, default=str)[:4000])
    sys.exit(1 if f else 0)
