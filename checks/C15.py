"""Characters and bytes as text: \\uXXXX, %XX, \\OOO, &#...;, named entities, hexadecimal cells, hex
dumps - read and written as Codecs.tla says, and back again."""
import sys, os, html.entities
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import corpus, kit as K
from kit import FROM as F, TO as T, INTER as I, phase

ENT = dict({n: c for n, c in html.entities.name2codepoint.items()}, apos=0x27)
def cell(c): return b"\x01" + (c.to_bytes(4, "big").lstrip(b"\0") or b"\0")
def entities():
    """names as they are, and in all small or all capital letters where that is unambiguous"""
    low = {}
    for n in ENT: low.setdefault(n.lower(), []).append(n)
    r = {n: c for n, c in ENT.items()}
    for l, ns in low.items():
        if len(ns) == 1:
            for f in (l, l.upper()): r.setdefault(f, ENT[ns[0]])
    return r
def run(c):
    r = c.rng
    b = Build()
    tr = K.Tries()
    NAMES = entities()
    nf = K.K("ASCII-NAMED-HTML-ENTITY", "TABLE", t=tr.add("named-f", [(list(b"&" + n.encode() + b";"), [cell(x)]) for n, x in NAMES.items()]))
    nt = K.K("ASCII-NAMED-HTML-ENTITY", "TABLE", t=tr.add("named-t", [(K.key_cells([cell(x)]), [b"&" + n.encode() + b";"]) for n, x in sorted(ENT.items())]))
    kwf = K.K("BSDCONV-KEYWORD", "TABLE", t=tr.add("kwf", K.table("from", "BSDCONV-KEYWORD")))
    kwt = K.K("BSDCONV-KEYWORD", "TABLE", t=tr.add("kwt", K.table("to", "BSDCONV-KEYWORD")))
    env = {"TRIES": tr.write(scratch("vfk-"))}
    names, cps = list(NAMES), sorted(set(ENT.values()))
    u8f, u8t = K.named("UTF-8", F["ASCII"], K.utf8()), K.named("UTF-8", T["UTF-8"], T["ASCII"])
    ncr = r.choice(["NCR", "HTMLENTITY", "ASCII-NUMERIC-HTML-ENTITY"])
    def ncrf(): return dict(F["NCR"], text=r.choice(["NCR", "HTMLENTITY", "ASCII-NUMERIC-HTML-ENTITY"]))
    def nff(): return dict(nf, text=r.choice(["NAMED-HTMLENTITY", "ASCII-NAMED-HTML-ENTITY"]))
    def esc(prefix, suffix=b"", mode=16, for_=1, text=None):
        k = K.escape_to(prefix, suffix, mode, for_, r.random() < .3)
        return dict(k, text=text) if text else k
    def java(): return esc(b"\\u", text=r.choice(["JAVA", "SOURCE", "ASCII-ESCAPED-UNICODE"]))
    def url(): a, z = esc(b"%u"), esc(b"%", for_=3); return K.named("URL", a, z)
    def hexent(): return esc(b"&#x", b";", text=r.choice(["HTMLENTITY", "ASCII-HEX-NUMERIC-HTML-ENTITY"]))
    def decent(): return esc(b"&#", b";", 10, text="ASCII-DEC-NUMERIC-HTML-ENTITY")
    def ntt(): return dict(nt, text=r.choice(["NAMED-HTMLENTITY", "ASCII-NAMED-HTML-ENTITY"]))
    def img(): return dict(T["IMG"], text=r.choice(["HTML-IMG", "ASCII-HTML-UNICODE-IMG"]))
    HX = "0123456789abcdefABCDEF"
    hx_ = lambda n: "".join(r.choice(HX) for _ in range(n)).encode()
    def cp(): return r.choice([r.randint(0, 255), r.randint(0, 0xffff), r.randint(0, 0x10ffff), r.choice([0, 1, 0x7f, 0x80, 0xff, 0x100, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x7fffffff, 99999999])])
    def unit():
        k = r.randint(0, 11)
        if k == 0: return b"%u" + hx_(4)
        if k == 1: return b"%" + hx_(2)
        if k == 2: return b"\\u" + hx_(4)
        if k == 3: return b"\\x" + hx_(2)
        if k == 4: return b"\\" + ("%03o" % r.randint(0, 511)).encode()
        if k == 5: return b"&#%d;" % cp()
        if k == 6: return ("&#x%s;" % r.choice(["%x", "%X", "%04x", "%08X"]) % cp()).encode()
        if k in (7, 8): return b"&" + r.choice(names).encode() + b";"
        if k == 9: return hx_(r.choice([1, 2, 3, 4, 6, 7])) + r.choice([b",", b"", b" ", b"\n"])
        if k == 10: return r.choice(corpus.UNI).encode()
        return r.choice([b"a", b"&", b";", b"\\", b"%", b"#", b"u", b"0", b"&#;", b"&#x;", b"%%41", b"\\\\u0041", b"&&amp;", b"&#12", b"\\u", b"\\8", b",", b"\xff", b"\0"])
    def dec_data():
        out = b""
        for _ in range(r.choice([1, 1, 2, 3, 6, 12])):
            u = unit()
            k = r.random()
            if k < .12 and len(u) > 1: #(not letters of names: what is left of one may be another's, in other letters)
                i = r.choice([0, len(u) - 1]) if u[:1] == b"&" and u[1:2] != b"#" else r.randrange(len(u))
                u = u[:i] + u[i + 1:]
            elif k < .2: u = u[:r.randint(0, len(u))]
            elif k < .26: i = r.randint(0, len(u)); u = u[:i] + r.choice([b"&", b"\\", b"%", b";", b"#", b"g", b"1", b"\xe4", b"\0"]) + u[i:]
            out += u
        return out
    FD = lambda: r.choice([F["ESCAPE"], ncrf(), nff(), F["BSDCONV"], F["HEX"], kwf])
    FE = lambda: r.choice([[esc(*a)] for a in [(b"%u",), (b"\\u",), (b"&#x", b";"), (b"&#", b";", 10), (b"%", b"", 16, 3), (b"\\", b"", 8, 3), (b"\\x", b"", 16, 3), (b"=", b"\r\n", 10, 3), (b"", b"", 8, 1), (b"", b""), *[(bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 5, 12]))), bytes(r.randrange(256) for _ in range(r.choice([0, 0, 1, 8]))), r.choice([16, 10, 8]), r.choice([1, 3])) for _ in range(3)]]]
                          + [[java()], [url()[0], url()[1]], [hexent()], [decent()], [ntt()], [img()], [T["INFO"]], [T["BSDCONV"]], [kwt], [T["HEX"]]])
    cases = []
    nm = ("IERR", "OERR")
    # reading
    for _ in range(3000 if thorough() else 500):
        fr = [FD() for _ in range(r.choice([1, 1, 2, 3]))] + r.choice([[], [], [F["ASCII"]], u8f, [F["BYTE"]], u8f + [F["BYTE"]]])
        for _ in range(5): cases.append(K.case([phase(1, *fr), phase(3, K.CELLS_OUT)], dec_data(), nm))
    # any byte in place of any digit
    for e in (b"\\x41", b"%41", b"%u4e2d", b"\\u4e2d", b"\\101", b"%0041", b"&#x4e2d;", b"&#20013;"):
        for i in range(len(e)):
            x = [e[:i] + bytes([y]) + e[i + 1:] + b"!" for y in range(256)]
            for j in range(0, 256, 32): cases.append(K.case([phase(1, F["ESCAPE"], ncrf(), F["BYTE"]), phase(3, K.CELLS_OUT)], b"".join(x[j:j + 32]), nm))
    # every named entity, every escape of one character around
    for n in names: cases.append(K.case([phase(1, nff(), F["ASCII"]), phase(3, K.CELLS_OUT)], b"&" + n.encode() + b";", nm))
    for x in cps: cases.append(K.case([phase(1, *u8f), phase(3, ntt(), T["ASCII"])], chr(x).encode(), nm))
    # writing
    def text(): return "".join(r.choice([r.choice(corpus.UNI), chr(r.choice(cps)), chr(r.choice([r.randint(1, 255), r.randint(1, 0xd7ff), r.randint(0xe000, 0x10ffff)]))]) for _ in range(r.choice([0, 1, 2, 4, 8]))).encode()
    for _ in range(3000 if thorough() else 500):
        fr = r.choice([[F["BSDCONV"]] + u8f, [F["BSDCONV"]] + u8f, u8f, u8f + [F["BYTE"]], [F["BYTE"]], [F["ANSI-CONTROL"]] + u8f + [F["BYTE"]], [F["00"]] + u8f, [F["BSDCONV"], F["BYTE"]]])
        to = [x for _ in range(r.choice([1, 1, 2])) for x in FE()]
        k = r.random()
        if k < .3: to = [T["ASCII"]] + to
        elif k < .5: to = to + u8t
        for _ in range(4):
            d = text()
            if r.random() < .4: d += r.choice([b"\xff", b"\x80\xe4", b"\0", b"\x1b[31m", b"01,", b"014E2D,", b"030A", b"02", b"0280", b"0201A1FE,02FE80", b"020102030405060708090A0B0C0D0E0F"]) + text()
            if r.random() < .5: # cells of any type and length (numbers of any size for those that write bytes)
                ok = all(x["rec"]["k"] in ("BSDCONV", "HEX", "ASCII") or x["rec"]["k"] == "ESCAPE" and x["rec"]["mode"] == 16 for x in to)
                d += b"".join(b"%02X%s," % (t, hx_(2 * r.choice([0, 1, 1, 1, 2, 3, 4, 5, 9]))) for t in [r.choice([2, 3, 3, 3, 4, 5, 0x13, 0x1b, 0, 255] + [1] * 5 * ok) for _ in range(r.randint(1, 3))])
            cases.append(K.case([phase(1, *fr), phase(3, *to)], d, nm))
    # there and back; what = the same again, given the text
    back = []
    B4 = [chr(x) for x in range(0x1000, 0x3000, 7)]
    for _ in range(2000 if thorough() else 250):
        t = text().replace(b"\0", b"")
        ps = r.choice([
            [phase(1, *u8f), phase(3, hexent()), phase(1, ncrf()), phase(3, *u8t)],
            [phase(1, *u8f), phase(3, decent()), phase(1, ncrf()), phase(3, *u8t)],
            [phase(1, *u8f), phase(3, ntt(), hexent()), phase(1, nff(), ncrf()), phase(3, *u8t)],
            [phase(1, *u8f), phase(3, ntt(), *u8t), phase(1, nff(), *u8f), phase(3, *u8t)],
            [phase(1, *u8f), phase(2, dict(K.insert(after=[b"\0,"]), text="SPLIT")), phase(3, kwt, T["BSDCONV"]), phase(1, kwf, F["BSDCONV"]), phase(3, *u8t)],
            [phase(1, F["BYTE"]), phase(3, T["HEX"]), phase(1, F["HEX"]), phase(3, T["BYTE"])],
            [phase(1, F["BYTE"]), phase(3, esc(b"%", for_=3)), phase(1, F["ESCAPE"]), phase(3, T["BYTE"])],
            [phase(1, F["BYTE"]), phase(3, esc(b"\\x", for_=3)), phase(1, F["ESCAPE"]), phase(3, T["BYTE"])],
            [phase(1, F["BYTE"]), phase(3, esc(b"\\", mode=8, for_=3)), phase(1, F["ESCAPE"]), phase(3, T["BYTE"])],
            [phase(1, *u8f), phase(3, java()), phase(1, F["ESCAPE"]), phase(3, *u8t)],
            [phase(1, *u8f), phase(3, *url()), phase(1, F["ESCAPE"]), phase(3, *u8t)],
        ])
        if ps[1][1][0]["text"] in ("JAVA", "SOURCE", "ASCII-ESCAPED-UNICODE", "URL"): t = "".join(x for x in t.decode() if 0x100 <= ord(x) < 0x10000).encode()
        if ps[1][1][0]["text"] == "SPLIT": t = bytes(x for x in t if x not in b" ,\\")    # (cells with these are keywords to it)
        if ps[0][1][0]["text"] == "BYTE": t += bytes(r.randrange(256) for _ in range(r.randint(0, 6)))
        k = K.case(ps, t, nm, cells=0)
        back.append(k)
    K.run(c, b, cases + back, env)
    for k in back:
        if "got" in k and bytes(k["got"]["out"]) != bytes(k["in"]):
            c.violation("%s does not give back %s" % (k["text"], bytes(k["in"]).hex()), {"conversion": k["text"], "input": bytes(k["in"]).hex(), "got": bytes(k["got"]["out"]).hex()})
if __name__ == "__main__":
    main(run, "C15")
