"""Instances hold what they need and nothing else: Resources.tla over recorded histories with
failing creates, exhausted descriptors, and instances destroyed at any point."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import conform, corpus, names

BAD = ["utf-8:score#with=nope:utf-8", "utf-8:score#as=x&by=1:utf-8", "utf-8:score,score#with=latin1,score#with=nope:utf-8", "utf-8:score-train:nosuch",
       "", "utf-8:", "nosuch:utf-8", "utf-8:nosuch", "utf-8,:ascii", "utf-8:insert#x:ascii", "utf-8:upper,replace#0:ascii", "any#zz:utf-8", "utf-8:any#4", "utf-8:escape#mode=9",
       "utf-8:nfc:trim-width:ascii", "utf-8:nfc,strings#for=nope:big5", "utf-8:strings#after=0:ascii", "utf-8:strings#before=1:ascii", "utf-8:strings#for=cjk&after=0141&before=1:ascii", "utf-8:pass#for=nope:ascii", "pass#for=unicode&x:utf-8",
       "utf-8:width:count#for=cjk,count#for=nope:ascii", "gb18030,any#1:nfkd:escape#for=byte", "utf-8:whitespace-derail:whitespace-rerail:escape#prefix=1", "utf-8:escape#suffix=1", "utf-8:escape#prefix=25&suffix=25&for=9",
       "utf-8:insert#after=0141&before=1:ascii", "utf-8:insert#after=1:ascii", "utf-8:replace:ascii", "utf-8:replace#01=0:ascii", "utf-8:replace#01=02&03=0:ascii", "utf-8:pass#limit=x:ascii", "utf-8:pass#for=cjk&limit:ascii", "ebcdic,ibm-37,any#q:ascii", "utf-8:bonus,score#x,nope:ascii",
       "utf-8:ascii|utf-8:_nfc:_nf-order:nope|x:y", "3f#x:utf-8", "utf-8:ambiguous-pad,ambiguous-unpad,big5-defrag,zh-bonus,insert#:nosuch", "utf-8:upper:utf-8,any#3F.4"]

EXTRA = ["utf-8:score:utf-8", "utf-8:score#with=latin1&as=x,score:null", "utf-8:score#with=trained:utf-8", "utf-8:score-train:upper:utf-8", "utf-8:bsdconv-log", "utf-8:ascii-html-info,3f", "utf-8:nfc:big5,htmlentity", "utf-8:strings#for=cjk:utf-8", "utf-8:trim-width#3:ascii", "locale:upper:ascii", "utf-8:nfkd|utf-8:upper:utf-8,any#3f", "big5:zhtw:zhcn_words:utf-8",
         "ascii,ansi-control,byte:big5-defrag:byte,ansi-control|big5,cp950-uda:nfc:utf-8", "utf-8:whitespace-derail:zhtw:zhtw_words:whitespace-rerail:utf-8", "JIS:UTF-8", "utf-8:case-fold:nfkc:width:count#for=cjk:null"]

def run(c):
    b = Build()
    rng = c.rng
    r = tlc("MCResources", "SPECIFICATION Spec\nCONSTANT MaxCodecs = %d\nINVARIANTS NothingLeft Whole\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n" % (9 if thorough() else 6), workers=NCPU)
    if not r.ok: raise CheckError("MCResources: " + r.out[-2000:])
    c.model("MCResources", r, "undoing a create that fails at any point leaves nothing")
    convs = sorted(set(v for f in (corpus.from_cases, corpus.inter_cases, corpus.to_cases) for v, w, k in f(b)) | set(EXTRA))
    open(os.path.join(b.dir, ".bsdconv.score"), "a").close()    # (the driver's home; one that is there is held open)
    # what one instance holds
    lists = [convs[k::NCPU] for k in range(NCPU)]
    cost = {}
    for q, (res, crash) in zip(lists, b.run_many([["res"] + [l for v in q for l in ("create 0 " + h(v), "res", "destroy 0")] for q in lists])):
        if crash:
            c.violation("the library died on %s\n%s" % (crash["op"], crash["stderr"][:800]), {"op": crash["op"]}); return
        for i, v in enumerate(q):
            m, o = res[3 * i + 1], res[3 * i + 2]
            cost[v] = {"valid": m["ok"], "fds": o["fds"] - res[0]["fds"] if m["ok"] else 0, "maps": o["maps"] - res[0]["maps"] if m["ok"] else 0}
    for v in BAD: cost[v] = {"valid": 0, "fds": 0, "maps": 0}
    ok = [v for v in convs if cost[v]["valid"]]
    inputs = [bytes.fromhex(x) if isinstance(x, str) else x for x in [b"", b"abc", "aé中文\u0301 한 \U0001f600".encode(), b"\xa4\xa4\xff\x81\x30", b"\x1b[1m&#65;\\u4e2d%u4e2d&amp;", b"\x0e\x42\xc1\x0f\xed\xa0\xbd", bytes(range(256)), b"0141,014E2D,\r\n\t  x"]]
    scripts, metas = [], []
    def add(nofile):
        names_ = [rng.choice(ok) for _ in range(rng.randint(1, 4))] + [rng.choice(BAD) for _ in range(rng.randint(0, 3))]
        body, m = [], []
        alive = {}
        for _ in range(rng.randint(3, 18)):
            k = rng.random()
            if (k < .4 and len(alive) < 6) or not alive:
                v = rng.choice(names_); s = rng.choice([x for x in range(6) if x not in alive])
                body.append("create %d %s" % (s, h(v) or "-")); m.append({"op": "create", "slot": s, "conv": v, "scarce": 0})
                if cost[v]["valid"]: alive[s] = v
                if rng.random() < .4: body.append("res"); m.append({"op": "res"})
            elif k < .75:
                s = rng.choice(list(alive))
                q = rng.random()
                if q < .3: body.append("init %d" % s)
                else:
                    d = rng.choice(inputs); d = d[:rng.randint(0, len(d))]
                    # init first: an instance is ready for input after it
                    body.append("init %d" % s); m.append({"op": "other"})
                    body.append("feed %d %d %s %d %s" % (s, rng.random() < .4, *rng.choice([("A", 0), ("N", 0), ("F", 0), ("H", 0), ("P", 3), ("P", 100)]), hx(d)))
                m.append({"op": "other"})
            else:
                s = rng.choice(list(alive)); del alive[s]
                body.append("destroy %d" % s); m.append({"op": "destroy", "slot": s})
                body.append("res"); m.append({"op": "res"})
        for s in list(alive): body.append("destroy %d" % s); m.append({"op": "destroy", "slot": s})
        body.append("res"); m.append({"op": "res", "end": 1})
        L, M = ["res"], []
        for rep in range(3):
            L += body
            for x in m: M.append(dict(x, settled=1 if x.get("end") and rep == 1 else 0))
        scripts.append(L); metas.append((names_, M))
    for _ in range(3000 if thorough() else 400): add(False)
    # too few descriptors
    SAMPLE = h("aé中文\u0301 한 \\u4e2d&#65; x".encode() + b"\xff\xa4\xa4")
    # every module that has code of its own, and a sample of the others
    coded = []
    for ph in ("from", "inter", "to"):
        for f in sorted(os.listdir(os.path.join(b.dir, "build/share/bsdconv", ph))):
            if f.endswith(".so"):
                x = [v for v in ok if f[:-3].upper() in [k.split("#")[0].upper() for k in v.replace("|", ":").replace(":", ",").split(",")]]
                if x: coded.append(min(x, key=len))
    sc = ok if thorough() else sorted(set(coded + rng.sample(ok, min(len(ok), 50)) + EXTRA))
    for v in sc:
        L, M = ["res", "create 0 " + h(v), "init 0", "feed 0 1 A 0 " + SAMPLE, "destroy 0"], [{"op": "other"}] * 2 + [{"op": "ref"}, {"op": "other"}]
        if not cost[v]["valid"]: continue
        n = cost[v]["fds"]
        ns = list(range(0, n + 6))
        for k in range(2):
            for x in ns:
                L += ["nofile %d" % x, "create 0 " + h(v), "nofile -1", "init 0", "feed 0 1 A 0 " + SAMPLE, "destroy 0", "res"]
                M += [{"op": "other"}, {"op": "create", "slot": 0, "conv": v, "scarce": 1}, {"op": "other"}, {"op": "other"}, {"op": "use"}, {"op": "destroy", "slot": 0}, {"op": "res", "settled": 1 if k == 1 and x == ns[0] else 0}]
        scripts.append(L); metas.append(([v], M))
    outs = b.run_many(scripts, 600)
    cases, back = [], []
    for L, (nm, M), (res, crash) in zip(scripts, metas, outs):
        if crash:
            c.violation("the library died (rc=%s) on %s\n%s" % (crash["rc"], crash["op"][:200], crash["stderr"][:800]), {"script": L[:crash["line"] + 1][-30:]})
            continue
        nm = sorted(set(nm))
        base = res[0]
        ops, ref = [], None
        for o, r in zip(M, res[1:]):
            if o["op"] == "create": ops.append(dict(o, conv=nm.index(o["conv"]) + 1, ok=r["ok"]))
            elif o["op"] == "res": ops.append({"op": "res", "settled": o.get("settled", 0), "fds": r["fds"], "maps": r["maps"], "sos": r["sos"], "live": r["live"], "cwd": r["cwd"]})
            elif o["op"] == "ref": ref = (r["out"], r["ierr"], r["oerr"])
            elif o["op"] == "use":
                if "noinst" not in r: ops.append({"op": "use", "same": int((r["out"], ) == (ref[0],))})
            elif o["op"] == "destroy": ops.append({"op": "destroy", "slot": o["slot"]})
        cases.append({"base": {k: base[k] for k in ("fds", "maps", "sos", "cwd")}, "cost": [cost[v] for v in nm], "ops": ops, "got": 0}); back.append((L, nm))
    for j, e in conform.conform(c, "Resources", cases):
        o = cases[j]["ops"][e - 1]
        show = dict(o, conv=back[j][1][o["conv"] - 1]) if "conv" in o else o
        c.violation("conversions %s: %s (base %s)" % (back[j][1], show, cases[j]["base"]), {"script": back[j][0], "operation": show, "index": e})
    c.count("histories", len(cases)); c.count("conversions", len(ok)); c.count("scarce_creates", sum(1 for k in cases for o in k["ops"] if o.get("scarce")))
    for j in rng.sample(range(len(cases)), 4): c.sample({"conversions": back[j][1], "operations": len(cases[j]["ops"])})
if __name__ == "__main__":
    main(run, "C08")
