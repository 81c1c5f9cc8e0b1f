"""Time of each workload of a property: tools/timing.py C19 [budget]"""
import os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core
d = core.dictionary()
mon = core.build_harness()
p = sys.argv[1]
for l in core.run([mon, "workloads", "--dict", d]).stdout.splitlines():
    q, w, t = l.split()
    if q == p and int(t):
        r = core.Result(); t0 = time.time()
        core.workers(mon, p, d, r, int(sys.argv[2]) if len(sys.argv) > 2 else 60, only=w, tag="t")
        print(w, t, round(time.time() - t0, 1), r.evaluations, r.workloads.get(w), len(r.violations), flush=True)
os.unlink(d)
