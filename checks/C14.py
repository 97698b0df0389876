"""Fallbacks: what no codec recognises goes to the fallback given, is counted where asked, and
what was put by (BYTE, PASS#MARK) comes back as it was (Codecs.tla decides every case)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import corpus, kit as K, filters
from kit import FROM as F, TO as T, INTER as I, phase

ALPH = [0x00, 0x3f, 0x41, 0x61, 0x7f, 0x80, 0xa4, 0xa5, 0xc2, 0xc3, 0xe4, 0xb8, 0xad, 0xed, 0xf0, 0x9f, 0x98, 0x80, 0xff]
def data(r, pure=False):
    out = b""
    for _ in range(r.choice([0, 1, 2, 3, 5, 8, 14])):
        k = r.random()
        if k < .35: out += r.choice(corpus.UNI).encode()
        elif k < .5: out += bytes([r.choice(ALPH)])
        elif k < .6: out += r.choice([b"\x1b[1m", b"\xa4\xa4", b"\xa4\x40", b"\xc3", b"\xe4\xb8", b"\x00", b"\x80\x41"])
        elif k < .8: out += bytes([r.choice(b"abc?,=\n")])
        else: out += bytes(r.choice(ALPH) for _ in range(r.randint(1, 4)))
    return out
def names_of(ps): return sorted({"IERR", "OERR"} | {n for _, ks in ps for k in ks for n in k["rec"].get("c", [])})

CE = [None, "", "CNT", "ierr", "Oerr"]
def some_cells(r, typed=True):
    return [bytes([r.choice([1, 1, 1, 3, 0x1b, 2])]) + r.choice([b"?", b"\xff\xfd", b"!", b"\x01\xf6\x00"]) for _ in range(r.choice([1, 1, 2, 3]))]
def r_any_from(r): return K.any_from(r.choice([None, some_cells(r)]), r.choice(CE), r.random() < .2)
def r_any_to(r): return K.any_to(r.choice([None, [r.choice([b"?", b"!!", b"\xff", b"<?>"]) for _ in range(r.choice([1, 1, 2]))]]), r.choice(CE), r.random() < .2)

def run(c):
    r = c.rng
    m = tlc("MCCodecs", "SPECIFICATION Spec\nCONSTANTS\n Alphabet = {0, 37, 65, 92, 195, 169, 228, 184, 128}\n MaxLen = %d\nINVARIANTS Lossless Counted PutBy Escaped Widened\nCHECK_DEADLOCK FALSE\n" % (5 if thorough() else 4), workers=NCPU)
    if not m.ok: raise CheckError("MCCodecs: " + m.out[-2000:])
    c.model("MCCodecs", m, "fallbacks lose nothing, what is put by comes back, escapes read back, on all byte strings over nine bytes of up to %d" % (5 if thorough() else 4))
    b = Build()
    FL = filters.all_filters()
    fl = lambda: r.choice([None, None, 1, 2, 3, 0x1b, r.choice(FL)])
    tr = K.Tries()
    big5f = K.K("_CP950", "TABLE", t=tr.add("cp950f", K.table("from", "_CP950")))
    big5t = K.K("_CP950", "TABLE", t=tr.add("cp950t", K.table("to", "_CP950")))
    env = {"TRIES": tr.write(scratch("vfk-"))}
    def heads(pool): return r.sample(pool, r.choice([0, 1, 1, 2, 2, 3]))
    UF, UT = [F["ASCII"], K.utf8(), F["00"], big5f, F["ANSI-CONTROL"], F["HEX"]], [T["ASCII"], T["UTF-8"], T["00"], big5t, T["UCS-2BE"], T["HEX"]]
    def frm(first):
        fb = r.choice([None, r_any_from(r), r_any_from(r), F["BYTE"], F["BYTE"], F["FALLBACK-UNICODE"]])
        hs = heads(UF)
        if not first and r.random() < .7: hs.insert(r.randint(0, len(hs)), K.pass_from(fl(), r.random() < .6))
        ks = hs + ([fb] if fb else [])
        if r.random() < .1: r.shuffle(ks)
        return phase(1, *(ks or [F["ASCII"]]))
    def to(last):
        fb = [None, r_any_to(r), r_any_to(r), T["BYTE"], T["NULL"], T["RAW"], K.pass_to(fl(), r.random() < .6), K.pass_to(None, r.random() < .5)]
        ks = heads(UT) + [x for x in r.sample(fb, r.choice([1, 1, 2])) if x]
        if r.random() < .1: r.shuffle(ks)
        return phase(3, *(ks or [T["ASCII"]]))
    def conv():
        ps = []
        n = r.choice([1, 1, 2, 2, 3])
        for i in range(n):
            ps.append(frm(i == 0))
            if r.random() < .2: ps.append(phase(2, K.pass_inter(fl(), r.choice([0, 0, 1, 3]))))
            ps.append(to(i == n - 1))
        return ps
    cases = []
    N = 8000 if thorough() else 1500
    for _ in range(N):
        ps = conv()
        for _ in range(6 if thorough() else 5): cases.append(K.case(ps, data(r), names_of(ps)))
    # the idioms: lossless whatever the input, and only what is damaged escaped or decoded otherwise
    skip = K.K("SKIP", "PASS", unmark=1, ft=-1, fr=[])
    u8f, u8t = K.named("UTF-8", F["ASCII"], K.utf8()), K.named("UTF-8", T["UTF-8"], T["ASCII"])
    fb3f, fb3t, sub = K.K("3F", "ANY", data=[[1, 63]], c=["IERR"]), K.K("3F", "ANY", data=[[63]], c=["OERR"]), K.K("SUB", "ANY", data=[[1, 0xff, 0xfd]], c=[])
    mark_u, mark_a = K.K("UNICODE", "PASS", mark=1, ft=1, fr=[]), K.K("ANSI-CONTROL", "PASS", mark=1, ft=0x1b, fr=[])
    cp950f, cp950t = K.named("CP950", F["ASCII"], big5f, F["CP950-UDA"]), None
    idioms = [
        [phase(1, *u8f, F["BYTE"]), phase(3, *u8t, T["BYTE"])],
        [phase(1, F["BYTE"]), phase(3, T["BYTE"])],
        [phase(1, *u8f, fb3f), phase(3, *u8t)], [phase(1, *u8f, sub), phase(3, *u8t)], [phase(1, *u8f), phase(3, T["ASCII"], fb3t)],
        [phase(1, F["ASCII"], F["FALLBACK-UNICODE"]), phase(3, *u8t)],
        [phase(1, *u8f, F["BYTE"]), phase(3, K.pass_to(1, 1), T["BYTE"]), phase(1, skip, *cp950f), phase(3, *u8t)],
        [phase(1, *u8f, F["BYTE"]), phase(3, mark_u, T["BYTE"]), phase(1, K.pass_from(None, 1), *cp950f, F["BYTE"]), phase(3, *u8t, T["BYTE"])],
        [phase(1, F["ANSI-CONTROL"], F["BYTE"]), phase(3, mark_a, T["BYTE"]), phase(1, skip, *u8f, fb3f), phase(3, *u8t, T["RAW"])],
        [phase(1, F["ANSI-CONTROL"], F["BYTE"]), phase(3, K.pass_to(0x1b, 1), T["BYTE"]), phase(1, skip, *cp950f), phase(2, I["BIG5-DEFRAG"]), phase(3, *u8t, K.pass_to(0x1b))],
        [phase(1, *u8f, F["BYTE"]), phase(3, K.pass_to(None, 1)), phase(1, K.pass_from(None, 1)), phase(3, *u8t, T["BYTE"])],
        [phase(1, *u8f, F["BYTE"]), phase(3, K.pass_to()), phase(1, skip), phase(3, *u8t)],
        # what UNMARK took is not marked any more; what is marked again is
        [phase(1, *u8f, F["BYTE"]), phase(3, K.pass_to(None, 1)), phase(1, K.pass_from(None, 1)), phase(3, K.pass_to()), phase(1, K.pass_from(None, 1), F["BYTE"]), phase(3, *u8t, T["BYTE"], fb3t)],
        [phase(1, *u8f, F["BYTE"]), phase(3, K.pass_to(None, 1)), phase(1, K.pass_from(None, 1)), phase(3, K.pass_to(1, 1), K.pass_to()), phase(1, K.pass_from(None, 1), fb3f), phase(3, *u8t, T["BYTE"], fb3t)],
    ]
    for ps in idioms:
        lossless = ps in (idioms[0], idioms[1], idioms[10])
        for _ in range(1500 if thorough() else 150):
            d = data(r)
            if ps is not idioms[1]: d = d.replace(b"\0", b"\1") # NUL is not among the codec UTF-8's
            k = K.case(ps, d, names_of(ps), cells=0)
            k["id"] = lossless
            cases.append(k)
    K.run(c, b, cases, env)
    for k in cases:
        if k.get("id") and "got" in k and bytes(k["got"]["out"]) != bytes(k["in"]):
            c.violation("%s does not give back %s" % (k["text"], bytes(k["in"]).hex()), {"conversion": k["text"], "input": bytes(k["in"]).hex(), "got": bytes(k["got"]["out"]).hex()})
if __name__ == "__main__":
    main(run, "C14")
