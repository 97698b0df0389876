"""Decide recorded cases with a specification: every case carries what the code did
(got); TLC computes Expected(case) of the given module and compares."""
import json, os
from vlib import *

WRAP = """---- MODULE Conform ----
EXTENDS %s, TLC, TLCExt
CONSTANT NCases
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
cvars == <<l, bad>>
CInit == l = 0 /\\ bad = 0
CNext == /\\ l < NCases /\\ l' = l + 1
         /\\ LET c == Cases[l + 1]
                 e == Expected(c)
            IN IF e = c.got THEN bad' = bad
               ELSE bad' = bad + 1 /\\ (bad < 40 => PrintT(<<"BAD", ToJson([i |-> l + 1, e |-> e])>>))
CSpec == CInit /\\ [][CNext]_cvars
====
"""
def conform(check, module, cases, env=None, name=None, timeout=800, heap="2g", shards=NCPU):
    """cases: list of json-able dicts with 'got'. Returns [(index, expected)] of those the
    specification does not allow."""
    if not cases:
        return []
    sh = [list(range(k, len(cases), shards)) for k in range(min(shards, len(cases)))]
    def one(idx):
        d = scratch("vfc-")
        tr = os.path.join(d, "trace.ndjson")
        with open(tr, "w") as fp:
            for i in idx:
                fp.write(json.dumps(cases[i]) + "\n")
        cfg = "SPECIFICATION CSpec\nCONSTANT NCases = %d\nCHECK_DEADLOCK FALSE\n" % len(idx)
        extra = ["IOUtils", "Json"]
        txt = open(os.path.join(SPEC, module + ".tla")).read()
        head = txt[:txt.index("=", txt.index("EXTENDS"))] if "EXTENDS" in txt else ""
        ext = module + "".join(", " + x for x in extra if x not in head)
        r = tlc("Conform", cfg, workdir=d, files=[("Conform.tla", WRAP % ext)], env=dict(env or {}, TRACE=tr), timeout=timeout, heap=heap)
        if not r.ok or r.distinct != len(idx) + 1:
            raise CheckError("conformance run of %s broke (%d of %d cases):\n%s" % (module, r.distinct - 1, len(idx), r.out[-3000:]))
        return r, [(idx[b["i"] - 1], b["e"]) for b in r.printed("BAD")]
    with ThreadPoolExecutor(shards) as ex:
        rs = list(ex.map(one, sh))
    bad = []
    for r, b in rs:
        check.cov["states"] += r.distinct
        check.cov["transitions"] += max(0, r.distinct - 1)
        bad += b
    check.traces(len(cases) - len(bad))
    check.models.append({"spec": name or module, "kind": "conformance", "cases": len(cases), "shards": len(sh)})
    return sorted(bad, key=lambda x: x[0])
