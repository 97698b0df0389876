"""UTF-8 decoding: what is accepted under every option, as Unicode.tla says."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import corpus, conform

B = [0x00, 0x41, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xf7, 0xf8, 0xfb, 0xfc, 0xfd, 0xfe, 0xff]
OPT = ["CESU", "LOOSE", "NUL", "OVERLONG", "SUPER"]

def run(c):
    b = Build()
    al = "{" + ", ".join(map(str, B)) + "}"
    r = tlc("MCUnicode", "SPECIFICATION Spec\nCONSTANTS\n Alphabet = %s\n MaxLen = %d\n Blocks = {%s}\nINVARIANTS Strict Monotonic RoundTrip\nCHECK_DEADLOCK FALSE\n" %
            (al, 4 if thorough() else 3, ", ".join(map(str, range(0, 4352, 1 if thorough() else 17)))), workers=NCPU, heap="4g")
    if not r.ok: raise CheckError("MCUnicode: " + r.out[-2000:])
    c.model("MCUnicode", r, "strict decoder = Unicode Table 3-7 on all strings over the boundary bytes; encoders invert decoders")
    combos = [o for n in range(6) for o in itertools.combinations(OPT, n)]
    if not thorough():
        # all singles, none, all, pairs; the rest over the seeds
        combos = [o for o in combos if len(o) < 3 or len(o) == 5] + c.rng.sample([o for o in combos if len(o) in (3, 4)], 5)
    cases, convs = [], []
    def add(o, ascii, data):
        conv = ("ASCII," if ascii else "") + "_UTF-8" + ("#" + "&".join(o) if o else "") + ":PASS"
        fr = ([{"name": "ASCII", "opts": []}] if ascii else []) + [{"name": "UTF-8", "opts": list(o)}]
        cases.append({"from": fr, "to": [{"name": "CELLS", "opts": []}], "in": list(data)})
        convs.append(conv)
    for o in combos:
        for s in itertools.chain([(x,) for x in B], itertools.product(B, repeat=2)):
            add(o, True, s)
        # every lead byte with every second byte
        for lead in (range(256) if not o or thorough() else c.rng.sample(range(0xc0, 0x100), 6)):
            for k in range(0, 256, 8):
                add(o, c.rng.random() < .5, b"".join(bytes([lead, x, 0x80, 0xbf, 0x80]) for x in range(k, k + 8)))
        for _ in range(3000 if thorough() else 250):
            k = c.rng.random()
            if k < .4: s = bytes(c.rng.choice(B) for _ in range(c.rng.randint(3, 8)))
            else: s = b"".join(corpus.g_utf8(c.rng) if c.rng.random() < .85 else bytes([c.rng.choice(B)]) for _ in range(c.rng.randint(1, 6)))
            if c.rng.random() < .2: s = s[:c.rng.randint(0, len(s))]
            add(o, c.rng.random() < .8, s)
    run_cases(c, b, cases, convs)

def run_cases(c, b, cases, convs, env=None):
    order = sorted(range(len(cases)), key=lambda i: convs[i])
    lists = [order[k::NCPU] for k in range(NCPU)]
    scripts = []
    for l in lists:
        L, last = [], None
        for i in l:
            if convs[i] != last:
                if last is not None: L.append("destroy 0")
                L.append("create 0 " + h(convs[i])); last = convs[i]
            L += ["creset 0 -", "init 0", "cellout 0 1 %s" % hx(bytes(cases[i]["in"]))]
        scripts.append(L)
    ok = []
    for l, (res, crash), L in zip(lists, b.run_many(scripts), scripts):
        if crash:
            c.violation("the library died (rc=%s) on %s\n%s" % (crash["rc"], crash["op"][:300], crash["stderr"][:800]), {"script": L[max(0, crash["line"] - 6):crash["line"] + 1]})
        rs = [r for r in res if "cells" in r]
        if not crash and len(rs) != len(l): raise CheckError("not every conversion was accepted: " + "; ".join(sorted({convs[i] for i in l})))
        for i, r in zip(l, rs):
            cells = cases[i]["to"][0]["name"] == "CELLS"
            cases[i]["got"] = {"out": [list(bytes.fromhex(x)) for x in r["cells"] if x] if cells else list(bytes.fromhex("".join(r["cells"]))), "ierr": r["ctr"]["IERR"], "oerr": r["ctr"]["OERR"]}
            ok.append(i)
    sel = [cases[i] for i in ok]
    for i, e in conform.conform(c, "Transcode", sel, env=env):
        k = ok[i]
        g = cases[k]["got"]
        c.violation("%s on %s: specification %s, code %s" % (convs[k], bytes(cases[k]["in"]).hex()[:200], json.dumps(e)[:300], json.dumps(g)[:300]),
                    {"conversion": convs[k], "input": bytes(cases[k]["in"]).hex(), "expected": e, "got": g})
    c.count("decodings", len(sel))
    for i in c.rng.sample(range(len(sel)), min(6, len(sel))):
        c.sample({"conversion": convs[ok[i]], "input": bytes(sel[i]["in"]).hex()[:80], "cells": len(sel[i]["got"]["out"]), "ierr": sel[i]["got"]["ierr"]})
if __name__ == "__main__":
    main(run, "C12")
