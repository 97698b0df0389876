"""Chinese and Japanese variants: traditional and simplified characters, kanji, hanja, words, readings of kana; every
entry, its neighbours and texts of them through one or several conversions (Codecs.tla decides), laws for every entry
(MCVariants.tla)."""
import sys, os, json, zlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import corpus, kit as K
from kit import FROM as F, TO as T, INTER as I, phase

V = json.loads(zlib.decompress(open(os.path.join(SPEC, "data", "variants.z"), "rb").read()))
WORDS = ("ZHTW-WORDS", "KANA-PHONETIC")
def cells(s): return [b"\x01" + (ord(x).to_bytes(3, "big").lstrip(b"\0") or b"\0") for x in s]
def run(c):
    r = c.rng
    vf = os.path.join(scratch("vfk-"), "variants.json")
    with open(vf, "w") as fp: json.dump({n: [[[ord(x) for x in k], [ord(x) for x in v]] for k, v in q] for n, q in V.items()}, fp)
    m = tlc("MCVariants", "SPECIFICATION Spec\nINVARIANTS Single Once Basic Absorbed There Back Phrase Kana\nCHECK_DEADLOCK FALSE\n", workers=NCPU, env={"VARIANTS": vf}, timeout=600)
    if not m.ok: raise CheckError("MCVariants: " + m.out[-2000:])
    c.model("MCVariants", m, "one character for one, once, settled at once; coarser variants absorb finer ones; plane 2 into the BMP; phrases keep their length; both kana read alike; every entry")
    b = Build()
    tr = K.Tries()
    tabs = {n: K.K(n, "TABLE", t=tr.add(n, [(K.key_cells(cells(k)), cells(v)) for k, v in q])) for n, q in V.items()}
    env = {"TRIES": tr.write(scratch("vfk-"))}
    keys = {n: [k for k, _ in q] for n, q in V.items()}
    vals = {n: [v for _, v in q] for n, q in V.items()}
    rd, wr = [F["ANSI-CONTROL"], F["ASCII"], F["00"], K.utf8(), F["BYTE"]], [T["00"], *K.named("UTF-8", T["UTF-8"], T["ASCII"]), T["BYTE"], T["RAW"]]
    cases = []
    def any_case(k): return dict(k, text=r.choice([k["text"], k["text"].lower()]))
    def add(mid, d): cases.append(K.case([phase(1, *rd)] + mid + [phase(3, *wr)], d, ("IERR", "OERR"), cells=0))
    good = lambda x: 0 < x < 0x110000 and not 0xd800 <= x < 0xe000
    for n in V:
        if n in WORDS:
            q = keys[n] + [k[:-1] for k in keys[n]] + [k + k[0] for k in keys[n]] + [k[0] + k for k in keys[n]]
            for j in range(0, len(q), 12): add([phase(2, tabs[n])], "".join(q[j:j + 12]).encode()); add([phase(2, tabs[n])], "\n".join(q[j:j + 12]).encode())
        else: # what it changes and what is next to it; the whole of the planes once in a while
            xs = sorted({y for k in keys[n] for y in (ord(k) - 1, ord(k), ord(k) + 1) if good(y)} | {ord(v) for v in vals[n]}) if not thorough() else [x for x in range(1, 0x30000) if good(x)]
            for j in range(0, len(xs), 60): add([phase(2, tabs[n])], "".join(map(chr, xs[j:j + 60])).encode())
    rel = [("ZHTW", "ZHTW-WORDS"), ("ZHTW-WORDS", "ZHTW"), ("ZHCN", "ZHTW"), ("KANJI", "KANA-PHONETIC"), ("BMP-TRANS-TW", "ZH-FUZZY-TW"), ("HANJA", "KANJI"), ("ZHTW", "ZHCN")]
    pool = sorted({x for n in V for k in keys[n] for x in k if n in WORDS})
    def text(ns):
        out = b""
        for _ in range(r.choice([0, 1, 2, 4, 8, 16, 30])):
            k, n = r.random(), r.choice(ns)
            if k < .45: w = r.choice(keys[n])
            elif k < .6: w = r.choice(vals[n])
            elif k < .7: w = r.choice(keys[n]); w = w[:r.randint(0, len(w))]
            elif k < .85: w = r.choice(pool)
            else: x = r.choice([r.randint(1, 0xffff), r.randint(0x20000, 0x2ffff), 0x41, 0x30fc, 0x3063, 0x30f3, 0x2a6d7, 0xfab7, 0x10ffff]); w = chr(x) if good(x) else ""
            out += w.encode()
            if r.random() < .05: out += r.choice([b"\xff", b"\x80", b"\0", b"\x1b[m", b"\xe4\xb8"])
        return out
    for _ in range(4000 if thorough() else 700):
        mid, ns = [], []
        if r.random() < .4:
            q = list(r.choice(rel)); ns = q
            mid = [phase(2, *[any_case(tabs[x]) for x in q])] if r.random() < .5 else [phase(2, any_case(tabs[x])) for x in q]
        else:
            for _ in range(r.choice([1, 1, 2, 3])):
                q = r.sample(list(V), r.choice([1, 1, 2, 3])); ns += q
                mid.append(phase(2, *[any_case(tabs[x]) for x in q]))
        for _ in range(4): add(mid, text(ns))
    K.run(c, b, cases, env)
    c.count("entries", sum(map(len, V.values()))); c.count("texts", len(cases))
if __name__ == "__main__":
    main(run, "C25")
