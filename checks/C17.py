"""Normalization: NFD, NFC, NFKD, NFKC and the caseless match form are what Normal.tla says, for
every character there is in Unicode 13 and all sequences; with Unicode's data as Python has it."""
import sys, os, json, unicodedata
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import corpus, kit as K
from kit import FROM as F, TO as T, INTER as I, phase

N = json.load(open(os.path.join(SPEC, "data", "normal.json")))
M = json.load(open(os.path.join(SPEC, "data", "mappings.json")))
def C(x): return b"\x01" + (x.to_bytes(3, "big").lstrip(b"\0") or b"\0")
def told():
    new = [tuple(x) for x in json.load(open(os.path.join(SPEC, "data", "widths.json")))["new"]]
    return lambda x: not any(a <= x <= z for a, z in new)

def run(c):
    r = c.rng
    nf = os.path.join(scratch("vfk-"), "normal.json")
    with open(nf, "w") as fp: json.dump({"ccc": N["ccc"], "comp": sorted(N["comp"])}, fp)
    # the laws of the specification
    alph = [0x41, 0x301, 0x323, 0x307, 0x1e62, 0x53, 0x327, 0] if not thorough() else [0x41, 0x301, 0x323, 0x307, 0x1e62, 0x53, 0x327, 0x1100, 0x1161, 0x11a8, 0xac00, 0]
    small = os.path.join(scratch("vfk-"), "small.json")
    cl = set(alph)
    while True:
        n = {x for a, b, p in N["comp"] for x in (a, b, p) if p in cl or (a in cl and b in cl)} | cl
        if n == cl: break
        cl = n
    with open(small, "w") as fp: json.dump({"ccc": [x for x in N["ccc"] if any(x[0] <= y <= x[1] for y in cl)], "comp": sorted(x for x in N["comp"] if x[2] in cl)}, fp)
    for al, ln in ((alph, 5 if thorough() else 4), ([0x1100, 0x1161, 0x11a8, 0xac00, 0xac01, 0x301, 0], 5 if thorough() else 4)):
        m = tlc("MCNormal", "SPECIFICATION Spec\nCONSTANTS\n Alphabet = {%s}\n MaxLen = %d\nINVARIANTS Idempotent Equivalent Maximal\nCHECK_DEADLOCK FALSE\n" % (", ".join(map(str, al)), ln), workers=NCPU, env={"NORMAL": small}, timeout=3000)
        if not m.ok: raise CheckError("MCNormal: " + m.out[-2000:])
        c.model("MCNormal", m, "normal forms are idempotent, unique among equivalent texts, ordered and composed all they can, on all texts over %d characters of up to %d" % (len(al), ln))
    b = Build()
    ok = told()
    tr = K.Tries()
    def table(n, d): return K.K(n, "TABLE", t=tr.add(n, [(K.key_cells([C(k)]), [C(x) for x in v]) for k, v in d]))
    D, KD, CF = table("_NFD", N["nfd"]), table("_NFKD", N["nfkd"]), table("CASEFOLD", M["CASEFOLD"])
    env = {"NORMAL": nf, "TRIES": tr.write(scratch("vfk-"))}
    st = lambda n, k: K.K(n, k)
    AP, OR, CO, TO_ = st("_NF-HANGUL-DECOMPOSITION", "HANGUL-APART"), st("_NF-ORDER", "NF-ORDER"), st("_NFC", "NF-COMPOSE"), st("_NF-HANGUL-COMPOSITION", "HANGUL-TOGETHER")
    def form(n):
        ks = {"NFD": [D, AP, OR], "NFKD": [KD, AP, OR], "NFC": [D, AP, OR, CO, TO_], "NFKC": [KD, AP, OR, CO, TO_],
              "NFKD-CASEFOLD": [D, AP, OR, CF, KD, AP, OR, CF, KD, AP, OR]}[n]
        return [phase(2, x) for x in K.named(n, *ks)]
    FORMS = ["NFD", "NFC", "NFKD", "NFKC"]
    rd, wr = [F["ANSI-CONTROL"], F["ASCII"], F["00"], K.utf8(), F["BYTE"]], [T["00"], *K.named("UTF-8", T["UTF-8"], T["ASCII"]), T["BYTE"], T["RAW"]]
    marks = [x for a, z, _ in N["ccc"] for x in range(a, z + 1)]
    bycl = {}
    for a, z, k in N["ccc"]: bycl.setdefault(k, []).extend(range(a, z + 1))
    firsts, seconds, comps = [x[0] for x in N["comp"]], [x[1] for x in N["comp"]], [x[2] for x in N["comp"]]
    nfd, nfkd = [x[0] for x in N["nfd"]], [x[0] for x in N["nfkd"]]
    cfs = [x[0] for x in M["CASEFOLD"]]
    def ch():
        k = r.randint(0, 15)
        if k < 3: return r.choice(bycl[r.choice(list(bycl))])
        if k == 3: return r.choice(firsts)
        if k == 4: return r.choice(seconds)
        if k == 5: return r.choice(comps)
        if k == 6: return r.choice(nfd)
        if k == 7: return r.choice(nfkd)
        if k == 8: return r.choice([0xac00, 0xac01, 0xac1c, 0xd7a3, 0xd788, r.randint(0xac00, 0xd7a3)])
        if k == 9: return r.choice([0x1100, 0x1112, 0x1113, 0x10ff, r.randint(0x1100, 0x1112)])
        if k == 10: return r.choice([0x1161, 0x1175, 0x1176, 0x1160, r.randint(0x1161, 0x1175)])
        if k == 11: return r.choice([0x11a7, 0x11a8, 0x11c2, 0x11c3, r.randint(0x11a8, 0x11c2)])
        if k == 12: return r.choice(cfs)
        if k == 13: return r.choice([0x41, 0x61, 0x20, 0x4e2d, 0x10ffff, 0xffff, 0x1f600])
        return r.choice(marks)
    def text():
        out = []
        base = [ch() for _ in range(r.randint(1, 5))]
        for _ in range(r.choice([1, 2, 3, 4, 6, 9, 14, 25])):
            k = r.random()
            if k < .3: out.append(r.choice(base))
            elif k < .5:
                a, x, p = r.choice(N["comp"]); out += r.choice([[a, x], [p], [a, r.choice(marks), x], [a, r.choice(marks), r.choice(marks), x], [x, a], [p, r.choice(seconds)]])
            elif k < .6: out += r.sample(bycl[r.choice(list(bycl))] * 3, r.randint(1, 3)) + [r.choice(marks)]
            elif k < .7: out += [r.randint(0x1100, 0x1112), r.randint(0x1161, 0x1175)] + ([r.randint(0x11a8, 0x11c2)] if r.random() < .6 else [])
            else: out.append(ch())
        out = [x for x in out if ok(x)]
        return "".join(map(chr, out))
    def names(ps): return ["IERR", "OERR"]
    cases, plain = [], []
    def add(ps, t, form=None):
        d = t if isinstance(t, bytes) else t.encode()
        k = K.case(ps, d, names(ps), cells=0)
        cases.append(k)
        if form: k["form"] = form; plain.append((k, form, t))
    Fphase, Tphase = phase(1, *rd), phase(3, *wr)
    for n in FORMS:
        ps = [Fphase] + form(n) + [Tphase]
        for _ in range(4000 if thorough() else 1000): add(ps, text(), n)
    cf = [Fphase] + form("NFKD-CASEFOLD") + [Tphase]
    for _ in range(4000 if thorough() else 400): add(cf, text())
    # every character that changes, and those around, several at a time with something that keeps them apart
    for n, xs in (("NFD", nfd + list(range(0xabfe, 0xd7a6, 97))), ("NFC", nfd + comps), ("NFKD", nfkd), ("NFKC", nfkd), ("NFKD-CASEFOLD", cfs + nfkd)):
        ps = [Fphase] + form(n) + [Tphase]
        xs = sorted({y for x in xs for y in (x - 1, x, x + 1) if ok(y) and y < 0x110000 and not 0xd800 <= y < 0xe000 and y > 0})
        for j in range(0, len(xs), 24): add(ps, "".join(chr(x) + "=" for x in xs[j:j + 24]), n if n in FORMS else None)
    for _ in range(300 if thorough() else 40): # every pair
        q = r.sample(N["comp"], 12); add([Fphase] + form("NFC") + [Tphase], "".join(chr(a) + chr(x) + r.choice(["=", chr(0x345), " "]) for a, x, _ in q), "NFC")
    for j in range(0, len(N["comp"]), 24): add([Fphase] + form("NFC") + [Tphase], "".join(chr(a) + chr(x) + "=" for a, x, _ in N["comp"][j:j + 24]), "NFC")
    for x in range(0xac00, 0xd7a4, 48): # every syllable
        t = "".join(map(chr, range(x, min(x + 48, 0xd7a4))))
        add([Fphase] + form("NFD") + [Tphase], t, "NFD"); add([Fphase] + form("NFC") + [Tphase], unicodedata.normalize("NFD", t), "NFC")
    # single stages, several forms one after the other, with what is no character in between
    def stage(): return [phase(2, r.choice([OR, CO, AP, TO_, D, KD, CF, K.count("CNT"), K.replace([C(0x41)], [C(0x61), C(0x301)])]))]
    def dirty():
        d = text().encode()
        for _ in range(r.randint(0, 3)):
            i = r.randint(0, len(d)); d = d[:i] + r.choice([b"\x1b[m", b"\xff", b"\x80", b"\0", b"a", chr(r.choice(marks)).encode()]) + d[i:]
        return d
    def clean(d): # only told characters however it was cut up
        return all(ok(x) for x in map(ord, d.decode("utf-8", "replace")))
    for _ in range(2500 if thorough() else 500):
        q = []
        for _ in range(r.choice([1, 1, 2, 3])): q += r.choice([form(r.choice(FORMS)), stage(), stage()])
        if any(k is TO_ for _, ks in q for k in ks) and not any(k is AP for _, ks in q for k in ks): q = [phase(2, AP)] + q
        for _ in range(3):
            d = dirty()
            if clean(d): add([Fphase] + q + [Tphase], d)
    K.run(c, b, cases, env)
    bad = 0
    for k, n, t in plain: # the specification is Unicode's algorithm
        if "got" in k and bytes(k["got"]["out"]).decode("utf-8", "replace") != unicodedata.normalize(n, t) and not c.viol:
            raise CheckError("%s of %s: the specification agrees with the code on %s, Python says %s" % (n, ascii(t), bytes(k["got"]["out"]).hex(), ascii(unicodedata.normalize(n, t))))
if __name__ == "__main__":
    main(run, "C17")
