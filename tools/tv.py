#!/usr/bin/env python3
"""tv.py SPEC FILE... : validate recorded histories, show the rejected ones"""
import sys, json, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
spec = sys.argv[1]
L = []
for f in sys.argv[2:]:
    L += [l for l in open(f).read().split("\n") if l]
bad = []
rej, d, g = vlib.validate(spec, L, bad=bad, env={'ASPECTS': os.environ.get('ASPECTS', 'all')})
if bad: print(bad[0])
print("histories", len(L), "rejected", len(rej), "states", d)
groups = {}
for k in sorted(rej):
    t = json.loads(L[k]); p = rej[k]; e = t["ev"][p-1]
    key = e["e"] + ":" + str(e.get("op", e.get("r", "")))
    groups.setdefault(key, []).append((t, p))
for key, v in groups.items():
    print("==", key, len(v))
    for t, p in sorted(v, key=lambda x: len(x[0]["ev"]))[:int(os.environ.get("N", "2"))]:
        print("prog", t.get("prog"), "sched", t.get("sched"), t.get("end"), "at", p, json.dumps(t["scn"]))
        for i, e in enumerate(t["ev"], 1):
            print("   ", ">>" if i == p else "  ", i, " ".join(f"{a}={b}" for a, b in e.items()))
