"""Conversion strings: what is accepted, and what it stands for, as ConvString.tla says."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import names, conform

AVOID = {"BSDCONV-LOG", "BSDCONV-OUTPUT", "BSDCONV-STDOUT", "SCORE", "SCORE-TRAIN"}
ARGS = {"ANY": ["3F", "013F&ERROR", "0141.0142", "3", "3G", "ERROR=X&DROP", "DROP", "", "&", "3F..3F", ".", "3F=1", "drop&414", "error&3f"],
        "ESCAPE": ["PREFIX=25", "PREFIX", "PREFIX=2", "PREFIX=", "MODE=16", "mode=hex", "MODE=7", "MODE", "FOR=UNICODE", "FOR=2", "FOR=03", "for=byte", "FOR", "SUFFIX=3B&MODE=10", "X", "PREFIX=5C75&FOR=1&MODE=8&SUFFIX=", "SUFFIX=zz"],
        "INSERT": ["AFTER=002C", "BEFORE=01", "BEFORE=1", "AFTER", "AFTER=&BEFORE=0141", "after=0141.0142&before=0143", "X=1", "AFTER=0141&AFTER=1", "AFTER=1&AFTER=0141", ""],
        "REPLACE": ["0141=0142", "0141", "01", "=0141", "0141=", "014", "0141=0", "0141&0142=0143", "0141.0142=0143.0144", "01.=02", "", "X", "0141=0142=0143"],
        "STRINGS": ["FOR=CJK", "FOR=CJKX", "for=print", "FOR=01", "FOR=1b", "FOR", "FOR=", "MIN-LEN=3", "MIN-LEN=x", "MIN-LEN", "MIN-LEN=-2", "AFTER=0", "AFTER", "BEFORE=010A&MIN-LEN=3", "X", "MIN-LEN=+4z", "AFTER=010&FOR=NO"],
        "TRIM-WIDTH": ["3", "0", "AMBI-AS-WIDE", "3&AMBI-AS-WIDE", "ambiguous-as-wide&12", "x", "", "3x", "-1", "+", "3&4", "3=AMBI"],
        "PASS": ["FOR=UNICODE", "FOR=1", "FOR=NO", "FOR", "FOR=", "LIMIT=3", "LIMIT", "LIMIT=a", "MARK", "UNMARK", "mark&for=byte", "unmark&for=CJK", "X", "FOR=01&LIMIT=2", "FOR=1&FOR=NO", "FOR=NO&FOR=1", "MARK=1"],
        "COUNT": ["FOR=CJK", "X&FOR=UNICODE", "FOR=NOPE", "", "err", "FOR", "a=b"],
        "_UTF-8": ["CESU", "LOOSE&SUPER", "X", "", "cesu=1"]}

def run(c):
    b = Build()
    d = scratch("vfn-")
    env = {"NAMES": names.write(b, d)}
    empty = os.path.join(d, "none.json")
    with open(empty, "w") as fp:
        json.dump({k: [] for k in ["from", "inter", "to", "filter", "afrom", "ainter", "ato", "afilter"]}, fp)
    r = tlc("MCConvString", "SPECIFICATION Spec\nCONSTANTS\n Alphabet = {97, 58, 124, 44, 35}\n MaxLen = %d\nINVARIANTS TextMeansSame Stable CodecEdit PhaseEdit\nCHECK_DEADLOCK FALSE\n" % (8 if thorough() else 6),
            workers=NCPU, heap="6g", env={"NAMES": empty}, timeout=1500 if thorough() else 300)
    if not r.ok: raise CheckError("MCConvString: " + r.out[-2000:])
    c.model("MCConvString", r, "parsing and printing are inverse, editing changes only what it names")
    N = {t: [n for n in names.modules(b, k) if n not in AVOID] for t, k in names.KINDS.items()}
    A = {t: [n for n, x in names.alias_file(b, k) if n not in AVOID] for t, k in names.KINDS.items()}
    rng = c.rng
    def mix(s):
        k = rng.random()
        return s if k < .5 else s.lower() if k < .8 else "".join(x.lower() if rng.random() < .5 else x for x in s)
    def noise(s):
        return "".join(x + (rng.choice(" \t\r\n\f") if rng.random() < .15 else "") for x in s)
    def name(t):
        k = rng.random()
        if k < .35: n = rng.choice(N[t])
        elif k < .75: n = rng.choice(A[t] + (["LOCALE"] if t != 2 else ["UNICODE"]))
        elif k < .87: n = rng.choice(["ANY", "ESCAPE", "PASS", "3F"] if t != 2 else ["INSERT", "REPLACE", "STRINGS", "TRIM-WIDTH", "PASS", "COUNT"])
        elif k < .93: n = rng.choice(N[rng.choice([1, 2, 3])])
        else:
            n = rng.choice(N[t] + A[t])
            m = rng.random()
            n = n[:-1] if m < .25 else n + rng.choice("X1-\xe9") if m < .5 else rng.choice(A[t]) + rng.choice(A[t]) if m < .75 else n[1:]
        return n
    def codec(t):
        n = name(t)
        if n in ARGS and rng.random() < .75: a = "#" + rng.choice(ARGS[n])
        elif rng.random() < .12: a = "#" + rng.choice(["X", "FOR=1", "", "A=B&C", "013F", "a#b", "ERROR", "AFTER=0141", "DROP"])
        else: a = ""
        return mix(n) + a
    def phase(t):
        s = ",".join(codec(t) for _ in range(rng.choice([1, 1, 1, 2, 3])))
        if rng.random() < .02: s = rng.choice(["", s + ",", "," + s, s.replace(",", ",,"), "#" + s])
        return s
    def pipe():
        n = rng.choice([1, 2, 2, 2, 3, 3, 4])
        return phase(2) if n == 1 else ":".join([phase(1)] + [phase(2) for _ in range(n - 2)] + [phase(3)])
    def string():
        s = "|".join(pipe() for _ in range(rng.choice([1, 1, 1, 2, 2, 3])))
        return noise(s) if rng.random() < .3 else s
    S = set()
    # every name in every place
    for t in (1, 2, 3):
        for n in N[t] + A[t]:
            S.add(n if t == 2 else n + ":ascii" if t == 1 else "ascii:" + n)
            S.add("ascii:%s:ascii" % n if t == 2 else mix(n) + "|" + n + ":ASCII" if t == 1 else "utf-8:pass|ascii:%s#x" % n.lower())
    for n, al in ARGS.items():
        for a in al:
            for f in ["%s#%s:ascii", "ascii:%s#%s:ascii", "%s#%s", "ascii:%s#%s", "pass,%s#%s:upper:utf-8", "utf-8|%s#%s|ascii:utf-8"]:
                S.add(f % (n, a))
    # short strings of the grammar, all of them
    T = ["utf-8", "upper", "3f", "nfc", ":", "|", ",", "#x"]
    for n in range(6 if thorough() else 5):
        for q in itertools.product(T, repeat=n): S.add("".join(q))
    q = list(itertools.product([":", "|", ","], repeat=5)) if not thorough() else []
    for w in q: S.add("".join(x + y for x, y in zip(["pass"] * 6, w)) + "pass")
    for _ in range(60000 if thorough() else 4000): S.add(string())
    cases = [{"op": "create", "s": names.codes(s), "loc": []} for s in sorted(S)]
    for t in (1, 2, 3, 4):
        al = A[t] + N[t] + [a + x for a in A[t] for x in A[t] if len(x) > 1] + [a + "X" for a in A[t]] + [a + "\xff" for a in A[t]] + ["X", "LOCALE", "UNICODE", "\xe9"]
        cases += [{"op": "alias", "t": t, "s": names.codes(m), "loc": []} for a in al for m in {a, a.lower()}]
    cases += [{"op": "alias", "t": t, "s": names.codes("UTF-8"), "loc": []} for t in (0, 5, 9, -1)]
    # cells written in arguments
    X = {"".join(q) for n in range(5 if thorough() else 4) for q in itertools.product("0aF.gG", repeat=n)}
    for _ in range(4000 if thorough() else 800): X.add("".join(rng.choice(["%02x", "%02X"]) % rng.randrange(256) if rng.random() < .85 else rng.choice([".", ".", "7", "", "..", "z", "\x80", "@", "`", ":", "/"]) for _ in range(rng.choice([1, 2, 3, 6, 12, 40]))))
    for x in range(1, 256): X |= {chr(x) + "0", "0" + chr(x)}
    cases += [{"op": o, "s": names.codes(x), "loc": []} for x in sorted(X) for o in ("datum", "data")]
    # what LOCALE stands for
    for loc in ["C", "POSIX", "en_US.UTF-8", "zh_TW.Big5", "ja_JP", "x.y.z", "C.UTF-8", "big5", ".", "a."]:
        for s in ["locale:utf-8", "utf-8:LOCALE", "locale#x:locale,ascii", "ascii,locale:upper:locale|locale:utf-8"]:
            cases.append({"op": "create", "s": names.codes(s), "loc": names.codes(loc)})
        for t in (1, 3): cases.append({"op": "alias", "t": t, "s": names.codes("locale"), "loc": names.codes(loc)})
    SAMPLE = h("Caf\u00e9 \u4e2d\u6587 a&lt;&#65;\\u4e2d 1,2".encode() + b"\xff\xa4\xe5\x80 41")
    def script(idx):
        L = []
        for i in idx:
            s = h(bytes(cases[i]["s"])) or "-"
            if cases[i]["op"] in ("datum", "data"): L.append("%s %s" % (cases[i]["op"], s)); continue
            L += ["create 0 " + s, "pack 0", "init 0", "feed 0 1 A 0 " + SAMPLE, "destroy 0"] if cases[i]["op"] == "create" else ["alias %d %s" % (cases[i]["t"], s)]
        return L
    byloc = {}
    for i, k in enumerate(cases): byloc.setdefault(bytes(k["loc"]).decode(), []).append(i)
    jobs = []
    for loc, idx in byloc.items():
        for sh in [idx[k::NCPU] for k in range(NCPU)] if len(idx) > 100 else [idx]: jobs.append((loc, sh))
    with ThreadPoolExecutor(NCPU) as ex:
        outs = list(ex.map(lambda j: b.run(script(j[1]), 800, env=b.env(LC_ALL=j[0] or "C", DRV_CPU="20")), jobs))
    done = []
    again = []
    for (loc, idx), (res, crash) in zip(jobs, outs):
        p = 0
        for i in idx:
            k = cases[i]
            if p + (5 if k["op"] == "create" else 1) > len(res): break
            if k["op"] == "create":
                ok = res[p]["ok"]
                k["got"] = {"ok": ok, "err": 0 if ok else res[p]["errno"], "text": list(bytes.fromhex(res[p + 1]["s"])) if ok else []}
                if ok: again.append((i, loc, res[p + 3]))
                p += 5
            elif k["op"] in ("datum", "data"):
                k["got"] = {"r": res[p]["r"], "l": [list(bytes.fromhex(x)) for x in res[p]["l"]]}; p += 1
            else:
                k["got"] = {"x": [0] if res[p]["s"] is None else list(bytes.fromhex(res[p]["s"]))}; p += 1
            done.append(i)
        if crash:
            c.violation("the library died (rc=%s) on %s (%s)\n%s" % (crash["rc"], crash["op"][:200], bytes(cases[i]["s"]), crash["stderr"][:800]), {"op": crash["op"], "string": bytes(cases[i]["s"]).decode("latin1")})
    def show(i): return "%s(%s%r%s)" % (cases[i]["op"], "%d, " % cases[i]["t"] if "t" in cases[i] else "", bytes(cases[i]["s"]).decode("latin1"), " in locale " + bytes(cases[i]["loc"]).decode() if cases[i]["loc"] else "")
    for j, e in conform.conform(c, "ConvString", [cases[i] for i in done], env=env):
        i = done[j]
        txt = lambda g: {k: (bytes(v).decode("latin1") if isinstance(v, list) and k != "l" else v) for k, v in g.items()}
        c.violation("%s: specification %s, code %s" % (show(i), txt(e), txt(cases[i]["got"])), {"case": show(i), "expected": txt(e), "got": txt(cases[i]["got"])})
    # the string it stands for converts alike
    again = again if thorough() else rng.sample(again, min(len(again), 2500))
    again = [a for a in again if bytes(cases[a[0]]["got"]["text"]) != bytes(cases[a[0]]["s"]).upper()]
    sh = [again[k::NCPU] for k in range(NCPU)]
    outs = b.run_many([[l for i, loc, r in q for l in ("create 0 " + h(bytes(cases[i]["got"]["text"])), "init 0", "feed 0 1 A 0 " + SAMPLE, "destroy 0")] for q in sh], 800)
    for q, (res, crash) in zip(sh, outs):
        for n, (i, loc, r) in enumerate(q):
            if 4 * n + 3 > len(res): break
            o = res[4 * n + 2]
            if {k: o.get(k) for k in ("out", "ierr", "oerr")} != {k: r[k] for k in ("out", "ierr", "oerr")}:
                c.violation("%s and what it stands for, %r, convert differently" % (show(i), bytes(cases[i]["got"]["text"])), {"case": show(i), "first": r, "second": o})
        if crash: c.violation("the library died (rc=%s) on %s\n%s" % (crash["rc"], crash["op"][:200], crash["stderr"][:800]), {"op": crash["op"]})
    c.count("strings", len(S)); c.count("converted_again", len(again))
    for i in rng.sample(done, min(6, len(done))):
        c.sample({"case": show(i), "got": {k: (bytes(v).decode("latin1") if isinstance(v, list) else v) for k, v in cases[i]["got"].items()}})
if __name__ == "__main__":
    main(run, "C06")
