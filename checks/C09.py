"""Stored values and counters, as Store.tla says."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import names, conform
# conversions, the counters their modules ask for, inputs and what these add
CONV = [("ASCII:UTF-8", [], [(b"ab", {}), (b"a\xff\xfe", {"IERR": 2})]),
        ("ascii:count:utf-8", ["COUNT"], [(b"abc", {"COUNT": 3}), (b"\x80z", {"COUNT": 1, "IERR": 1})]),
        ("ascii:count#x,count:utf-8", ["X", "COUNT"], [(b"abc", {"X": 3})]),
        ("ascii:count#ierr:utf-8", [], [(b"abc", {"IERR": 3}), (b"\xff", {"IERR": 1})]),
        ("utf-8:count#Foo:count#FOO:ascii", ["FOO"], [(b"ab\xc3\xa9", {"FOO": 6, "OERR": 1}), (b"", {})]),
        ("utf-8:width:null", ["FULL", "HALF", "AMBI"], [("a\uff41\u02c7".encode(), {"FULL": 1, "HALF": 1, "AMBI": 1})]),
        ("utf-8:ascii,any#3f&error=lost", ["LOST"], [("\u4e2da\u4e2d".encode(), {"LOST": 2})]),
        ("ascii,any#013f&error=BAD:count#bad:utf-8", ["BAD"], [(b"a\xff", {"BAD": 3})]),
        ("utf-8:upper:ascii|ascii:count#second:ascii", ["SECOND"], [(b"a\xc3\xa9b", {"OERR": 1, "SECOND": 2})])]
KEYS = ["a", "A", "b", "key", "Key", "KEY", "", "\xe9", "x" * 300, "IERR", "ierr", "Oerr", "count", "COUNT", "FOO", "foo", "full", "lost", "bad", "second"]

def run(c):
    b = Build()
    rng = c.rng
    r = tlc("MCStore", "SPECIFICATION Spec\nCONSTANTS\n Keys = {1, 2, 3%s}\n Values = {0, 1, 2}\n MaxOps = %d\nINVARIANTS Answers Same\nCHECK_DEADLOCK FALSE\n" % ((", 4", 9) if thorough() else ("", 7)), workers=NCPU, heap="4g", timeout=900)
    if not r.ok: raise CheckError("MCStore: " + r.out[-2000:])
    c.model("MCStore", r, "a list with trading places implements the map")
    cases, scripts = [], []
    cc = lambda s: names.codes(s)
    for _ in range(30000 if thorough() else 3000):
        conv, start, inputs = rng.choice(CONV)
        keys = rng.sample(KEYS, rng.randint(1, 5))
        L, ops = ["create 0 " + h(conv)], []
        for _ in range(rng.choice([5, 20, 60])):
            k = rng.choice(keys); hk = hx(k.encode("latin1")) if k else "-"
            op = rng.choice(["hset", "hset", "hset", "hget", "hget", "hget", "hhas", "hdel", "hdel", "counter", "cadd", "creset", "cresetall", "cptr", "cread", "cinc", "convert", "init"])
            v = rng.randint(0, 9)
            o = {"op": op, "k": cc(k), "v": v}
            if op == "hset": L.append("hset 0 %s %d" % (hk, v))
            elif op in ("hget", "hhas", "hdel", "counter"): L.append("%s 0 %s" % (op, hk))
            elif op == "cadd": L.append("cadd 0 %s %d" % (hk, v))
            elif op == "creset":
                if not k: continue
                L.append("creset 0 " + hk)
            elif op == "cresetall": L.append("creset 0 -")
            elif op == "cptr": L.append("cptr 0 %s %d" % (hk, v))
            elif op in ("cread", "cinc"): L.append("%s 0 %d" % (op, v))
            elif op == "init": L.append("init 0")
            else:
                data, adds = rng.choice(inputs)
                o["adds"] = [{"n": cc(x), "v": y} for x, y in adds.items()]
                L += ["init 0", "feed 0 1 A 0 " + hx(data)]
                ops.append({"op": "init", "k": [], "v": 0})
            ops.append(o)
        L.append("destroy 0")
        cases.append({"conv": conv, "start": [cc(x) for x in start], "ops": ops}); scripts.append(L)
    sh = [list(range(k, len(cases), NCPU)) for k in range(NCPU)]
    outs = b.run_many([[l for i in q for l in scripts[i]] for q in sh], 600)
    done = []
    for q, (res, crash) in zip(sh, outs):
        p = 0
        for i in q:
            rs = res[p:p + len(scripts[i])]; p += len(scripts[i])
            if len(rs) < len(scripts[i]): break
            if not rs[0]["ok"]: raise CheckError("rejected: " + cases[i]["conv"])
            cases[i]["got"] = [{"v": r.get("v", 0), "c": [{"n": cc(n), "v": v} for n, v in r["ctr"].items()] if "ctr" in r else []} for r in rs[1:-1]]
            done.append(i)
        if crash: c.violation("the library died (rc=%s) on %s\n%s" % (crash["rc"], crash["op"][:200], crash["stderr"][:800]), {"script": scripts[i]})
    for j, e in conform.conform(c, "Store", [cases[i] for i in done]):
        i = done[j]; k = e[0] - 1
        c.violation("%s: after %s, %s answered %s" % (cases[i]["conv"], scripts[i][1:k + 1][-6:], scripts[i][k + 1], {"v": cases[i]["got"][k]["v"], "counters": {bytes(x["n"]).decode("latin1"): x["v"] for x in cases[i]["got"][k]["c"]}}), {"script": scripts[i][:k + 2]})
    c.count("histories", len(done)); c.count("operations", sum(len(cases[i]["ops"]) for i in done))
    for i in rng.sample(done, 4): c.sample({"conversion": cases[i]["conv"], "script": scripts[i][:8]})
if __name__ == "__main__":
    main(run, "C09")
