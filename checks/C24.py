"""Logs of what passes: BSDCONV-LOG (from and to), BSDCONV-OUTPUT. Codecs.tla gives the lines."""
import sys, os, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import corpus, conform, kit as K, filters
from kit import FROM as F, TO as T, INTER as I, phase

OUT = {n: K.K("BSDCONV-OUTPUT" + n, "LOG") for n in ("", "#STDOUT", "#stderr", "#STDERR", "#STDERR&STDOUT")}
def run(c):
    r = c.rng
    m = tlc("MCCodecs", "SPECIFICATION Spec\nCONSTANTS\n Alphabet = {10, 65, 194, 167}\n MaxLen = %d\nINVARIANTS LogsAll LogsRest\nCHECK_DEADLOCK FALSE\n" % (7 if thorough() else 5), workers=NCPU, timeout=3000)
    if not m.ok: raise CheckError("MCCodecs: " + m.out[-2000:])
    c.model("MCCodecs", m, "a log has all that came to it, and with what others took it is the whole: all byte strings over four bytes of up to %d" % (7 if thorough() else 5))
    b = Build()
    tr = K.Tries()
    cp = K.K("CP437", "TABLE", t=tr.add("CP437", K.table("to", "CP437"))) if os.path.exists(os.path.join(REPO, "modules/to/CP437.txt")) else None
    env = {"TRIES": tr.write(scratch("vfk-"))}
    U = lambda: r.choice([[F["ASCII"], K.utf8()], [K.utf8(), F["ASCII"]], [F["ASCII"], F["00"], K.utf8(), F["BYTE"]], [F["ESCAPE"], F["ASCII"]], [F["HEX"], F["ASCII"]], [F["UTF-16LE"]], [F["ASCII"]]])
    def fl(): return r.choice([None, 1, 3, r.choice(filters.all_filters())])
    SOME = [b"\x01a", b"\x01\n", b"\x03\xa4", b"\x01\x4e\x2d", b"\x1b[m", b"\x02\x01\x44\x21", b"\x01\x01\xf6\x00", bytes(range(3, 40)), b"\x02" + b"\xa5" * 300, b""]
    def mid():
        k = r.random()
        if k < .2: return [phase(2, K.insert([r.choice(SOME[:-1])], [r.choice(SOME[:-1])]))]
        if k < .35: return [phase(2, K.count("CNT", fl()))]
        if k < .5: return [phase(2, K.pass_inter(fl(), r.choice([0, 1, 3])), r.choice([I["NULL"], K.count("CNT")]))]
        if k < .6: return [phase(2, K.replace([b"\x01a"], [r.choice(SOME[:-1]) for _ in range(r.randint(0, 2))]))]
        return []
    def to(): return r.choice([[T["UTF-8"], T["ASCII"]], [T["ASCII"]], [T["BYTE"]], [K.pass_to(fl())], [K.escape_to()], [T["00"], T["ASCII"]], []])
    def data(): return b"".join(r.choice([b"a", b"a\n", "\u6e2c".encode(), "\xe9".encode(), b"\\u4e2d", b"%41", b"3041", b"\x41\x00"]) for _ in range(r.randint(0, 8))) if r.random() < .5 else bytes(r.choice([97, 98, 10, 0, 255, 0xe6, 0xb8, 0xac, 0xc3, 0xa9, 92, 120, 52, 49, r.randrange(256)]) for _ in range(r.choice([0, 1, 2, 5, 12, 40])))
    def conv(lg):
        """phases with a log in the first or the last, or both"""
        w = r.random()
        first = U() if r.random() < .75 else []
        last = to()
        if lg is not K.LOG or w > .4: last = last + [lg]
        if lg is K.LOG and (w <= .4 or w > .85):
            first = [k for k in first if k["rec"]["k"] != "BYTE"] + [K.LOG] if r.random() < .8 else [K.LOG] + first
        if not first: first = [F["ASCII"]]
        if not last: last = [T["NULL"]]
        ps = [phase(1, *first)] + mid() + [phase(3, *last)]
        if r.random() < .3: #told apart by marks, over two conversions in a row
            f = fl()
            ps = [phase(1, *(U())), phase(3, K.pass_to(f, 1), *([K.pass_to()] if r.random() < .7 else [])), phase(1, K.pass_from(None, 0))] + mid() + [phase(3, *([lg] if r.random() < .6 else last[:-1] + [lg]))]
            if lg is K.LOG and r.random() < .3: ps[0][1].append(K.LOG)
        return ps
    names = lambda ps: sorted({"IERR", "OERR"} | {n for _, ks in ps for k in ks for n in k["rec"].get("c", [])})
    cases = []
    for _ in range(2500 if thorough() else 500):
        ps = conv(K.LOG)
        for _ in range(4):
            k = K.case(ps, data(), names(ps)); k["log"] = ""; cases.append(k)
    K.run(c, b, cases, env)
    # said at the terminal
    tool = []
    for _ in range(600 if thorough() else 120):
        n = r.choice(list(OUT)); ps = conv(OUT[n])
        k = K.case(ps, data(), names(ps), cells=0); k["log"] = ""; k["to"] = 2 if n.upper() == "#STDERR" else 1
        tool.append(k)
    def one(k):
        p = subprocess.run([os.path.join(b.path, "bin", "bsdconv"), k["text"]], input=bytes(k["in"]), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=b.env(), timeout=120)
        return p.returncode, p.stdout, p.stderr
    with ThreadPoolExecutor(NCPU) as ex: outs = list(ex.map(one, tool))
    for k, (rc, so, se) in zip(tool, outs):
        err = se.split(b"\n")[:-1]
        summ = [l for l in err if b": " in l]
        ctr = dict(l.rsplit(b": ", 1) for l in summ)
        own = b"".join(l + b"\n" for l in err if b": " not in l) if k["to"] == 2 else so
        k["got"] = {"rc": rc, "out": list(so) if k["to"] == 2 else [], "log": list(own.replace(b" FREE", b"").replace(b" ( )", b"")), "c": [int(ctr.get(n.encode(), 0)) for n in k["names"]]}
    # what is put out beside the lines is the conversion's own output, in between them: here only where there is none
    sel = [k for k in tool if all(x["k"] in ("LOG", "NULL") for x in k["ps"][-1]["ks"]) or k["to"] == 2]
    for j, e in conform.conform(c, "LogText", [{x: k[x] for x in ("ps", "in", "names", "cells", "log", "got", "to")} for k in sel], env=env):
        k = sel[j]
        c.violation("bsdconv %s < %s: specification %s, code %s" % (k["text"], bytes(k["in"]).hex(), show(e), show(k["got"])), {"conversion": k["text"], "input": bytes(k["in"]).hex(), "expected": e, "got": k["got"]})
    # no log to write to: said so
    for v in ({}, {"BSDCONV_FROM_LOG": "/nonexistent/x", "BSDCONV_TO_LOG": "/nonexistent/x"}):
        L = ["create 0 " + h("BSDCONV-LOG:UTF-8"), "create 1 " + h("UTF-8:BSDCONV-LOG"), "create 2 " + h("UTF-8:BSDCONV-OUTPUT#STDLOG")]
        res, crash = b.run(L, env=b.env(**v))
        if crash: c.violation("the library died (rc=%s) on %s\n%s" % (crash["rc"], crash["op"], crash["stderr"][:600]), {"op": crash["op"]})
        elif any(x["ok"] for x in res): c.violation("accepted without a log to write to: %s" % res, {"script": L, "env": v})
    c.count("logged", len(cases)); c.count("with_lines", sum(1 for k in cases if k.get("log"))); c.count("said", len(sel))
def show(g): return str({"rc": g["rc"], "out": bytes(g["out"]), "log": bytes(g["log"]), "c": g["c"]})[:600]
if __name__ == "__main__":
    main(run, "C24")
