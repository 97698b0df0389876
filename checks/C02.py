"""Matching semantics of the engine: Engine.tla explored, then replayed on the code."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import engine

def run(c):
    b = Build()
    n1, l1 = (60, 4) if thorough() else (18, 3)
    n2, l2 = (900, 5) if thorough() else (140, 4)
    # exhaustive exploration of the operational engine: all inputs, all cuts, all phase schedules
    convs = [engine.rand_conv(c.rng) for _ in range(n1)]
    r, pred = engine.predict(convs, l1, timeout=850)
    if not r.ok:
        raise CheckError("Engine.tla violates its own closed form:\n" + r.out[-3000:])
    c.model("Engine", r, "%d random conversions, all inputs up to %d units, all chunkings and schedules" % (n1, l1))
    tabs = engine.Tables(b)
    strs = engine.install(tabs, convs)
    # closed form only, more and longer
    convs2 = [engine.rand_conv(c.rng) for _ in range(n2)]
    parts = [convs2[k::NCPU] for k in range(NCPU)]
    with ThreadPoolExecutor(NCPU) as ex:
        prs = list(ex.map(lambda p: engine.predict(p, l2, explore=False, workers=1, timeout=850), parts))
    jobs = [(convs, strs, pred)]
    base = len(convs)
    for p, (rr, pr) in zip(parts, prs):
        if not rr.ok: raise CheckError(rr.out[-2000:])
        c.cov["states"] += rr.distinct
        ss = engine.install(tabs, p, base=base)
        base += len(p)
        jobs.append((p, ss, pr))
    for a, rc, out in tabs.compile():
        c.violation("table compiler failed (rc %s) on %s: %s" % (rc, a, out[-300:]), {"table": a})
    for cs, ss, pr in jobs:
        k = engine.replay(c, tabs, cs, ss, pr, limit=None if thorough() else 8)
        c.traces(k)
        c.count("predicted_behaviours", len(pr))
    for (i, s), v in list(pred.items())[:200:40]:
        c.sample({"conversion": convs[i], "input": s, "out,ierr,oerr": v})
main(run, "C02")
