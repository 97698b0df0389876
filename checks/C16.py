"""Encodings with shift states - EBCDIC with SO/SI, ISO-2022-JP - decode and encode as Codecs.tla says."""
import sys, os, codecs
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import corpus, kit as K
from kit import FROM as F, TO as T, INTER as I, phase

IBM = ["930", "933", "935", "937", "939"]
def run(c):
    r = c.rng
    b = Build()
    tr = K.Tries()
    ft, tt, f_, t_ = {}, {}, {}, {}
    for n in IBM:
        ft[n], tt[n] = K.table("from", "IBM-" + n), K.table("to", "IBM-" + n)
        f_[n] = K.K("IBM-" + n, "EBCDIC", t=tr.add("f" + n, ft[n]))
        t_[n] = K.K("IBM-" + n, "EBCDIC", t=tr.add("t" + n, tt[n]))
    jt = [K.table("from", "_JIS0" + x) for x in ("201", "208", "212")]
    jis = K.K("_JIS", "JIS", ts=[tr.add("j%d" % i, t) for i, t in enumerate(jt)])
    env = {"TRIES": tr.write(scratch("vfk-"))}
    u8f, u8t = K.named("UTF-8", F["ASCII"], K.utf8()), K.named("UTF-8", T["UTF-8"], T["ASCII"])
    nm = ("IERR", "OERR")
    cases, back = [], []
    def ebcdic_bytes(n):
        one, two = [k for k, _ in ft[n] if len(k) == 1], [k for k, _ in ft[n] if len(k) == 2]
        out, sh = b"", False
        for _ in range(r.choice([0, 1, 2, 4, 9, 20])):
            k = r.random()
            if k < .12: out += b"\x0e"; sh = True
            elif k < .22: out += b"\x0f"; sh = False
            elif k < .3: out += bytes([r.randrange(256)])
            elif k < .4: out += bytes([r.randrange(256), r.randrange(256)])
            elif k < .46: out += bytes(r.choice(two))[:1]
            elif (k < .9) == sh: out += bytes(r.choice(two))
            else: out += bytes(r.choice(one))
        return out
    def text_of(n):
        one, two = [k for k, o in tt[n] if len(o[0]) == 1], [k for k, o in tt[n] if len(o[0]) == 2]
        s = ""
        for _ in range(r.choice([0, 1, 2, 4, 9, 20])):
            k = r.random()
            if k < .1: s += r.choice(corpus.UNI)
            else: s += chr(int.from_bytes(bytes(x for x in (r.choice(two) if k < .55 else r.choice(one))[1:]), "big"))
        return s.replace("\0", "").encode("utf-8", "surrogatepass")
    N = 8 if thorough() else 1
    for n in IBM:
        for _ in range(250 * N):
            fr = [f_[n]] + r.choice([[], [], [F["BYTE"]], [K.any_from(None, "")], [F["ASCII"]]])
            to = r.choice([[K.CELLS_OUT], u8t])
            cases.append(K.case([phase(1, *fr), phase(3, *to)], ebcdic_bytes(n), nm, cells=int(to == [K.CELLS_OUT])))
        for _ in range(250 * N):
            to = [t_[n]] + r.choice([[], [], [], [K.any_to([b"\x6f"], "")], [T["BYTE"]]])
            cases.append(K.case([phase(1, *u8f, *r.choice([[], [F["BYTE"]]])), phase(3, *to)], text_of(n) + r.choice([b"", b"\xff"]), nm, cells=0))
        for _ in range(100 * N):
            k = K.case([phase(1, *u8f), phase(3, t_[n]), phase(1, f_[n]), phase(3, *u8t)], text_of(n), nm, cells=0); cases.append(k)
            m = r.choice(IBM)
            cases.append(K.case([phase(1, f_[n]), phase(3, t_[m])], ebcdic_bytes(n), nm, cells=0))
    jk = [[k for k, _ in t] for t in jt]
    ESC = [b"\x1b(B", b"\x1b(J", b"\x1b(I", b"\x1b$@", b"\x1b$B", b"\x1b$(D"]
    def jis_bytes():
        out, m = b"", 0
        for _ in range(r.choice([1, 2, 4, 9, 20])):
            k = r.random()
            if k < .3: m = r.randrange(6); out += ESC[m]
            elif k < .34: e = r.choice(ESC); out += e[:r.randint(1, len(e) - 1)]
            elif k < .38: out += bytes([r.choice(b"\x1b$(@BDIJ\x1b")])
            elif k < .42: out += bytes([r.randrange(256)])
            elif k < .46: out += bytes([r.randint(0x21, 0x7e)])
            elif m in (3, 4): out += bytes(r.choice(jk[1]))
            elif m == 5: out += bytes(r.choice(jk[2]))
            elif m == 2: out += bytes([r.randint(0x21, 0x5f) | r.choice([0, 0, 0, 128])])
            else: out += bytes([r.choice([r.randint(0x20, 0x7e), 0x5c, 0x7e, 0x0a])])
        return out
    for _ in range(1200 * N):
        fr = r.choice([[jis, F["ASCII"]], K.named("JIS", jis, F["ASCII"]), [jis], [jis, F["ASCII"], F["BYTE"]], [jis, K.any_from(None, "")]])
        to = r.choice([[K.CELLS_OUT], u8t])
        cases.append(K.case([phase(1, *fr), phase(3, *to)], jis_bytes(), nm, cells=int(to == [K.CELLS_OUT])))
    # text another implementation wrote
    j8 = {int.from_bytes(o[0][1:], "big") for t in jt for _, o in t}
    pool = [chr(x) for x in sorted(j8)]
    for _ in range(600 * N):
        s = ""
        for _ in range(r.randint(1, 12)):
            ch = r.choice([r.choice(pool), r.choice("ab \n1~\\"), chr(r.randint(0xff61, 0xff9f)), "あ", "漢"])
            try:
                if ch.encode("iso2022_jp_ext").decode("iso2022_jp_ext") == ch: s += ch
            except UnicodeError: pass
        k = K.case([phase(1, *K.named("JIS", jis, F["ASCII"])), phase(3, *u8t)], s.encode("iso2022_jp_ext"), nm, cells=0)
        k["want"] = s
        cases.append(k); back.append(k)
    K.run(c, b, cases, env)
    for k in back:
        if "got" in k and bytes(k["got"]["out"]).decode("utf-8", "replace") != k["want"]:
            c.violation("%s of %s gives %r, not %r" % (k["text"], bytes(k["in"]).hex(), bytes(k["got"]["out"]).decode("utf-8", "replace"), k["want"]), {"conversion": k["text"], "input": bytes(k["in"]).hex()})
if __name__ == "__main__":
    main(run, "C16")
