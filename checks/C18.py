"""Stages that edit the stream: counting, picking, cutting, inserting, replacing, trimming to a width,
padding, white space, line ends; and the filters they are told to use (Codecs.tla decides every case)."""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import corpus, kit as K, filters
from kit import FROM as F, TO as T, INTER as I, phase

def C(x): return b"\x01" + (x.to_bytes(3, "big").lstrip(b"\0") or b"\0")
CR, LF = C(13), C(10)
def lines(*o): return [(K.key_cells(k), list(o)) for k in ([CR, LF], [LF], [CR])]

def run(c):
    r = c.rng
    m = tlc("MCCodecs", "SPECIFICATION Spec\nCONSTANTS\n Alphabet = {10, 13, 32, 65, 97, 194, 167, 160}\n MaxLen = %d\nINVARIANTS Rails LineEnds Picked Padded Widened\nCHECK_DEADLOCK FALSE\n" % (6 if thorough() else 4), workers=NCPU, env={"WIDTHS": WIDTHS()}, timeout=3000)
    if not m.ok: raise CheckError("MCCodecs: " + m.out[-2000:])
    c.model("MCCodecs", m, "white space put back, line ends, picking and padding keep to their laws on all byte strings over eight bytes of up to %d" % (6 if thorough() else 4))
    b = Build()
    FL = filters.all_filters()
    W = json.load(open(os.path.join(SPEC, "data", "widths.json")))
    new = [tuple(x) for x in W["new"]]
    def told(x): return not any(a <= x <= z for a, z in new)
    tr = K.Tries()
    env = {"WIDTHS": WIDTHS()}
    ENDS = {n: K.K(n, "TABLE", t=tr.add(n, lines(*o))) for n, o in {"UNIX": [LF], "MAC": [CR], "WIN": [CR, LF], "NL2BR": [C(ord(x)) for x in "<br />"]}.items()}
    env["TRIES"] = tr.write(scratch("vfk-"))
    rd = [F["ANSI-CONTROL"], F["ASCII"], F["00"], K.utf8(), F["BYTE"]]
    edges = sorted({x for _, v in FL for a, z in v for x in (a - 1, a, z, z + 1)} & set(range(0xd800)) | {x for _, v in FL for a, z in v for x in (a - 1, a, z, z + 1) if 0xe000 <= x < 0x110000})
    wedges = [x for a, z, _ in W["widths"] for x in (a - 1, a, z, z + 1) if (x < 0xd800 or x >= 0xe000) and x < 0x110000 and told(x)]
    TXT = ["a", "A", "b", "1", "~", " ", "\n", "\r", "\r\n", "\t", "\xa0", "\xa7", "\xe9", "\u3042", "\u4e2d", "\u6587", "\uff71", "\u0300", "\u2026", "\x1f", "\x00", "\U0001f600", "\U00020000", "\ufeff", "0", "\u20ac", "\x7f"]
    def u(x): return chr(x).encode() if told(x) else b""
    def ansi():
        k = r.random()
        if k < .3: return b"\x1b" + bytes([r.choice([40, 41, 79, 80, 90, 91, 97, 122, 64, 96, 123, 27, r.randint(0, 255)])])
        if k < .6: return b"\x1b[" + bytes(r.choice(b"0123;?=O\x1b") for _ in range(r.choice([0, 1, 5, 26, 27, 28, 29, 40]))) + bytes([r.choice(b"mHNOPZaz[@`{")])
        if k < .8: return b"\x1b[" + bytes([r.choice([64, 65, 78, 79, 80, 90, 91, 96, 97, 122, 123])])
        return b"\x1b[" + bytes(r.randint(0, 255) for _ in range(r.choice([0, 1, 2, 30])))
    def data(f=None):
        out = b""
        pal = r.sample(TXT, r.randint(1, 6))
        for _ in range(r.choice([0, 1, 2, 4, 8, 16, 30])):
            k = r.random()
            if k < .55: out += r.choice(pal).encode()
            elif k < .65: out += r.choice(TXT).encode()
            elif k < .72 and f: a, z = r.choice(f[1]); x = r.choice([a, z, a - 1, z + 1, r.randint(a, z)]); out += u(x) if 0 <= x < 0xd800 or 0xe000 <= x < 0x110000 else b""
            elif k < .8: out += u(r.choice(wedges))
            elif k < .88: out += r.choice([b"\xa4", b"\xa4\x40", b"\xff", b"\x80", b"\xa4\x1b[1m\xa4", b"\xa4\x1b[1;3m\x1b[m\x41", b"\xe4\xb8"])
            elif k < .91: out += r.choice([b"\x1b[1m", b"\x1b[m", b"\x1bM", b"\x1b[31;4H"])
            elif k < .95: out += ansi()
            else: out += u(r.choice(edges))
        return out
    SOME = [b"\x01a", b"\x01\n", b"\x01\r", b"\x01\x20\x26", b"\x03\xa4", b"\x01\x4e\x2d", b"\x1b[m", b"\x01 ", b"\x01b", b"\x01A", b"\x01\xa0", b"\x01\x01\xf6\x00", b"\x02\x01\x44\x21", b"\x01\x4e", b"\x01N", b"\x1b[", b"\x1bM", b"\x01", b"\x03", b"\x05", b"\x01aa", b"\x01a\0", b"\x01\x4e\x2d\0", b"\x03\xa4\x41"]
    def some(a=0, z=3): return [r.choice(SOME) for _ in range(r.randint(a, z))]
    def fl(): return r.choice([None, 1, 2, 3, 0x1b, r.choice(FL), filters.named("PRINT")])
    NAMES = ["CNT", "Lines", "COUNT"]
    def stage(pad):
        k = r.randint(0, 17)
        if k in (0, 1): return K.count(r.choice(NAMES), fl())
        if k in (2, 3): return K.pass_inter(fl(), r.choice([0, 0, 1, 2, 3, 7]))
        if k in (4, 5): return K.insert(some(0, 2), some(0, 2))
        if k in (6, 7): return K.replace(some(1, 3), some(0, 3))
        if k == 8: return K.replace([r.choice(SOME[:4])] * r.randint(1, 3), some(0, 2))
        if k in (9, 10): f = r.choice([filters.named("PRINT")] + [fl() or 1 for _ in range(2)]); return K.strings(f, r.choice([0, 1, 1, 2, 3, 5]), some(0, 2), r.choice([[LF], [LF], some(0, 2)]), filters.named("PRINT"))
        if k in (11, 12): return K.trim(r.choice([0, 1, 2, 3, 5, 9, 20, 1000]), r.random() < .5)
        if k == 13: return K.ambi("PAD", pad)
        if k == 14: return K.ambi("UNPAD", pad)
        if k == 15: return I["BIG5-DEFRAG"]
        if k == 16: return I["WIDTH"]
        return ENDS[r.choice(list(ENDS))]
    def swap(): # holds cells back, and gives as many as it took
        q = [C(ord(r.choice("abbA1~"))) for _ in range(r.choice([1, 2, 2, 3, 4]))]
        return K.replace(q, r.choice([q, q[::-1]]))
    KEEP = lambda pad: r.choice([I["WIDTH"], K.count("CNT", fl()), K.pass_inter(None, 0), ENDS["UNIX"], K.replace([b"\x01a"], [b"\x01z"]), swap()])
    def names(ps): return sorted({"IERR", "OERR", "FULL", "HALF", "AMBI"} | {n for _, ks in ps for k in ks for n in k["rec"].get("c", [])})
    cases = []
    def add(ps, d, pad=1, cells=1):
        k = K.case(ps, d, names(ps), cells)
        if not pad or r.random() < .1: k["ctl"] = [[4, pad]]
        cases.append(k)
        return k
    def rails():
        return [phase(2, I["WHITESPACE-DERAIL"])] + [phase(2, KEEP(1)) for _ in range(r.choice([0, 1, 2]))] + [phase(2, I["WHITESPACE-RERAIL"])]
    for _ in range(4500 if thorough() else 1500):
        pad = int(r.random() > .15)
        mid = []
        for _ in range(r.choice([1, 1, 1, 2, 2, 3, 4])):
            if r.random() < .12: mid += rails()
            else:
                ks = [stage(pad)]
                while r.random() < .2: ks.insert(r.randint(0, len(ks)), r.choice([stage(pad), K.replace(some(1, 2), some(0, 2))]))
                mid.append(phase(2, *ks))
        f = next(((k["text"], k["rec"]["fr"]) for _, ks in mid for k in ks if k["rec"].get("fr")), None)
        ps = [phase(1, *rd)] + mid + [phase(3, K.CELLS_OUT)]
        for _ in range(5): add(ps, data(f), pad)
    for _ in range(1500 if thorough() else 250):
        t = r.choice(["ab ", "aab \n", "abA1~ \t\r", "b  a", "ab\x08\t\n\x0b\x0c\r\x0e\x1f !", "ab\x85\xa0\u1680\u2000\u2028\u3000\u200b\u0a0a\u2020"])
        add([phase(1, *rd), phase(2, I["WHITESPACE-DERAIL"])] + [phase(2, r.choice([swap(), swap(), KEEP(1)])) for _ in range(r.choice([1, 1, 2]))] + [phase(2, I["WHITESPACE-RERAIL"]), phase(3, K.CELLS_OUT)], "".join(r.choice(t) for _ in range(r.choice([3, 6, 12, 25]))).encode())
        d = b"".join(r.choice([b"\xa4", b"\xff", b"\x80", b"A", b"\x7f", "\u3042".encode(), b"\x1b[m", b"\x1b[1;31m", b"\x1b[0m", b"\x1bM", b"\x1b[41m"][x:]) for x in [r.choice([0, 0, 0, 5])] for _ in range(r.choice([2, 4, 8, 20])))
        add([phase(1, *rd), phase(2, *([I["BIG5-DEFRAG"]] + [I["WIDTH"]] * (r.random() < .2))), phase(3, K.CELLS_OUT)], d)
    # every filter at every edge of what it lets through
    for n, v in FL:
        xs = sorted({x for a, z in v for x in (a - 1, a, (a + z) // 2, z, z + 1) if 0 <= x < 0xd800 or 0xe000 <= x < 0x110000})
        for j in range(0, len(xs), 40): add([phase(1, *rd), phase(2, K.replace([b"\x01\xff\xff\xff"])), phase(2, K.count("CNT", (n, v))), phase(3, K.pass_to((n, v)), T["NULL"])], b"".join(u(x) for x in xs[j:j + 40]))
    # every character's width: alone or with others
    ws = [x for x in range(0x110000) if (x < 0xd800 or x >= 0xe000) and told(x)] if thorough() else sorted(set(wedges))
    for j in range(0, len(ws), 32):
        d = b"".join(u(x) for x in ws[j:j + 32])
        add([phase(1, *rd), phase(2, I["WIDTH"]), phase(2, K.ambi("PAD")), phase(3, K.CELLS_OUT)], d)
        if not thorough(): add([phase(1, *rd), phase(2, K.trim(r.randint(1, 40), r.random() < .5)), phase(3, K.CELLS_OUT)], d)
    # there and back
    back = []
    for _ in range(1500 if thorough() else 200):
        d = data()
        back.append(add([phase(1, *rd)] + rails()[:1] + [phase(2, I["WHITESPACE-RERAIL"]), phase(3, T["00"], *K.named("UTF-8", T["UTF-8"], T["ASCII"]), T["BYTE"], T["RAW"])], d.replace(b"\x1b", b"\x01"), cells=0))
        d = d.replace(b"\xc2\xa0", b"").replace(b"\x1b", b"\x01")
        back.append(add([phase(1, *rd), phase(2, K.ambi("PAD")), phase(2, K.ambi("UNPAD")), phase(3, T["00"], *K.named("UTF-8", T["UTF-8"], T["ASCII"]), T["BYTE"])], d, cells=0))
    K.run(c, b, cases, env)
    for k in back:
        if "got" in k and bytes(k["got"]["out"]) != bytes(k["in"]):
            c.violation("%s does not give back %s" % (k["text"], bytes(k["in"]).hex()), {"conversion": k["text"], "input": bytes(k["in"]).hex(), "got": bytes(k["got"]["out"]).hex()})
_w = []
def WIDTHS():
    if not _w:
        p = os.path.join(scratch("vfk-"), "widths.json")
        with open(p, "w") as fp: json.dump(json.load(open(os.path.join(SPEC, "data", "widths.json")))["widths"], fp)
        _w.append(p)
    return _w[0]
if __name__ == "__main__":
    main(run, "C18")
