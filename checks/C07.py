"""Editing conversion strings: insert/replace phase/codec as ConvString.tla says."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import names, conform

def run(c):
    b = Build()
    d = scratch("vfn-")
    empty = os.path.join(d, "none.json")
    with open(empty, "w") as fp:
        json.dump({k: [] for k in ["from", "inter", "to", "filter", "afrom", "ainter", "ato", "afilter"]}, fp)
    r = tlc("MCConvString", "SPECIFICATION Spec\nCONSTANTS\n Alphabet = {97, 58, 124, 44, 35}\n MaxLen = %d\nINVARIANTS TextMeansSame Stable CodecEdit PhaseEdit\nCHECK_DEADLOCK FALSE\n" % (8 if thorough() else 6),
            workers=NCPU, heap="6g", env={"NAMES": empty}, timeout=1500 if thorough() else 300)
    if not r.ok: raise CheckError("MCConvString: " + r.out[-2000:])
    c.model("MCConvString", r, "parsing and printing are inverse, editing changes only what it names")
    rng = c.rng
    def word(): return rng.choice(["a", "utf-8", "UTF-8", "x y", "b#c", "any#013f&error", "d#", "q#x#y", "3f", "\xe9", "big5-2003"])
    def phase(): return ",".join(word() for _ in range(rng.choice([1, 1, 2, 3, 6])))
    def string():
        s = "|".join(":".join(phase() for _ in range(rng.choice([1, 2, 2, 3, 4]))) for _ in range(rng.choice([1, 1, 2, 3])))
        if rng.random() < .05:
            p = rng.randrange(len(s) + 1); s = s[:p] + rng.choice(":|,#") + s[p:]
        return s
    new = ["upper", "b,c", "b#c", "b#c,d", "x:y", "p|q", "", "a#", "long-" * 60, "d,,e", "\xff"]
    cases = []
    small = ["".join(q) for n in range(1, 6) for q in itertools.product("a:|,#", repeat=n)] if thorough() else \
            ["".join(q) for n in range(1, 5) for q in itertools.product("a:|,#", repeat=n)]
    idx = [-7, -4, -3, -2, -1, 0, 1, 2, 3, 4, 9, 1000000, -1000000]
    def case(s):
        op = rng.choice(["ip", "ic", "rp", "rc"])
        return {"op": op, "s": names.codes(s), "codec": names.codes(rng.choice(new)), "t": rng.choice([1, 2, 3]), "n": rng.choice(idx), "m": rng.choice(idx)}
    for s in small:
        for op in ["ip", "ic", "rp", "rc"]:
            k = case(s); k["op"] = op; k["n"] = rng.choice([-2, -1, 0, 1, 2]); k["m"] = rng.choice([-2, -1, 0, 1, 2])
            cases.append(k)
    for s in ["a:b", "a,b:c,d,e:f", "a", "a|b", "a:b|c:d", "a:b|c|d:e", "a#x:b#y,c#z:d"]:
        for op, n, m, t in itertools.product(["ip", "ic", "rp", "rc"], idx, idx, [1, 2, 3]):
            if op in ("ip", "rp") and m != 0 or op in ("ic", "rc") and t != 1: continue
            cases.append({"op": op, "s": names.codes(s), "codec": names.codes("new"), "t": t, "n": n, "m": m})
    for _ in range(120000 if thorough() else 12000): cases.append(case(string()))
    sh = [list(range(k, len(cases), NCPU)) for k in range(NCPU)]
    hh = lambda q: h(bytes(q)) or "-"
    outs = b.run_many([["edit %s %s %s %d %d %d" % (cases[i]["op"], hh(cases[i]["s"]), hh(cases[i]["codec"]), cases[i]["t"], cases[i]["n"], cases[i]["m"]) for i in l] for l in sh], 600)
    def show(k): return "%s(%r, %r, type %d, phase %d, codec %d)" % ({"ip": "insert_phase", "ic": "insert_codec", "rp": "replace_phase", "rc": "replace_codec"}[k["op"]], bytes(k["s"]).decode("latin1"), bytes(k["codec"]).decode("latin1"), k["t"], k["n"], k["m"])
    done = []
    for l, (res, crash) in zip(sh, outs):
        for i, r in zip(l, res):
            cases[i]["got"] = {"x": [0] if r["s"] is None else list(bytes.fromhex(r["s"]))}
            done.append(cases[i])
        if crash:
            k = cases[l[min(crash["line"], len(l) - 1)]]
            c.violation("the library died (rc=%s) in %s\n%s" % (crash["rc"], show(k), crash["stderr"][:800]), {"case": show(k)})
    txt = lambda g: None if g["x"] == [0] else bytes(g["x"]).decode("latin1")
    for j, e in conform.conform(c, "ConvString", done, env={"NAMES": empty}):
        k = done[j]
        c.violation("%s: specification %r, code %r" % (show(k), txt(e), txt(k["got"])), {"case": show(k), "expected": txt(e), "got": txt(k["got"])})
    # where instances have their phases and codecs (strings of modules: pack gives them back)
    real = ["UTF-8:UTF-8", "ASCII:UTF-8,3F|UTF-8,BYTE:UPPER:LOWER:BIG5,ASCII,BYTE", "UTF-8:NFC:UTF-8", "UPPER", "_UTF-8,ANSI-CONTROL,BYTE,ASCII:WIDTH:NULL", "BIG5:UTF-8|GBK:UTF-16LE,ANY#3F|PASS:PASS"]
    wide = idx + [-2147483648, 2147483647, 5, 6, 7, 8, -5, -6, -8, -9]
    il = [(s, n, m) for s in real for n in wide for m in (wide if thorough() else rng.sample(wide, 9))]
    res, crash = b.run(["index %s %d %d" % (h(s.encode()), n, m) for s, n, m in il], 120)
    if crash: c.violation("the library died (rc=%s) looking up %s\n%s" % (crash["rc"], il[min(crash["line"], len(il) - 1)], crash["stderr"][:800]), {"case": il[min(crash["line"], len(il) - 1)]})
    ics = []
    for (s, n, m), r in zip(il, res):
        if r["pack"] is None: raise CheckError("cannot create %s" % s)
        ics.append({"op": "index", "s": list(bytes.fromhex(r["pack"])), "n": n, "m": m, "got": {"p": r["p"], "c": r["c"]}})
    for j, e in conform.conform(c, "ConvString", ics, env={"NAMES": empty}):
        c.violation("phase %d of %s, codec %d of it: specification %s, code %s" % (il[j][1], il[j][0], il[j][2], e, ics[j]["got"]), {"conversion": il[j][0], "phase": il[j][1], "codec": il[j][2], "expected": e, "got": ics[j]["got"]})
    c.count("edits", len(done)); c.count("places", len(ics)); c.count("refused", sum(k["got"]["x"] == [0] for k in done))
    for k in rng.sample(done, min(8, len(done))): c.sample({"case": show(k), "result": txt(k["got"])})
if __name__ == "__main__":
    main(run, "C07")
