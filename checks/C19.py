"""Mappings of characters: case, width, super- and subscript, against Unicode's data; every character
there is in Unicode 13, alone and in texts, through one or more of them (Codecs.tla decides)."""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import corpus, kit as K
from kit import FROM as F, TO as T, INTER as I, phase

M = json.load(open(os.path.join(SPEC, "data", "mappings.json")))
def C(x): return b"\x01" + (x.to_bytes(3, "big").lstrip(b"\0") or b"\0")
def of_tree(n):
    """a mapping of single characters as it stands in the tree"""
    r = {}
    for key, out in K.table("inter", n):
        if 256 not in key: r.setdefault(int.from_bytes(bytes(key[1:]), "big"), [int.from_bytes(x[1:], "big") for x in out])
    return sorted([k, v] for k, v in r.items())
def run(c):
    r = c.rng
    new = [tuple(x) for x in json.load(open(os.path.join(SPEC, "data", "widths.json")))["new"]]
    ok = lambda x: not any(a <= x <= z for a, z in new)
    full = dict(M, UPSIDEDOWN=of_tree("UPSIDEDOWN"), ASCIIFOLD=of_tree("ASCIIFOLD"))
    mf = os.path.join(scratch("vfk-"), "mappings.json")
    with open(mf, "w") as fp: json.dump({k: sorted(v) for k, v in full.items()}, fp)
    m = tlc("MCMappings", "SPECIFICATION Spec\nINVARIANTS Stable Inverse Ascii Folded\nCHECK_DEADLOCK FALSE\n", workers=NCPU, env={"MAPPINGS": mf})
    if m.violated: c.violation("a mapping breaks its law: " + m.out[m.out.find("Error:"):][:700], {"tlc": m.out[-3000:]})
    elif not m.ok: raise CheckError("MCMappings: " + m.out[-2000:])
    c.model("MCMappings", m, "mapping twice is mapping once, FULL and HALF undo each other, UPSIDEDOWN itself; case variants fold to the same; every entry")
    b = Build()
    tr = K.Tries()
    tabs = {n: K.K(n, "TABLE", t=tr.add(n, [(K.key_cells([C(k)]), [C(x) for x in v]) for k, v in d] if n in M else K.table("inter", n))) for n, d in full.items()}
    env = {"TRIES": tr.write(scratch("vfk-"))}
    keys = {n: [k for k, _ in d] for n, d in full.items()}
    vals = {n: [x for _, v in d for x in v] for n, d in full.items()}
    rd, wr = [F["ANSI-CONTROL"], F["ASCII"], F["00"], K.utf8(), F["BYTE"]], [T["00"], *K.named("UTF-8", T["UTF-8"], T["ASCII"]), T["BYTE"], T["RAW"]]
    cases = []
    def add(mid, d): cases.append(K.case([phase(1, *rd)] + mid + [phase(3, *wr)], d, ("IERR", "OERR"), cells=0))
    def good(x): return 0 < x < 0x110000 and not 0xd800 <= x < 0xe000 and ok(x)
    for n in full: # what it changes and what is next to it
        xs = sorted({y for x in keys[n] + vals[n] for y in (x - 1, x, x + 1) if good(y)}) if not thorough() else [x for x in range(1, 0x110000) if good(x) and (x < 0x30000 or x > 0xe0000 and x < 0xe0200)]
        for j in range(0, len(xs), 40): add([phase(2, tabs[n])], "".join(map(chr, xs[j:j + 40])).encode())
    def text(ns):
        out = b""
        for _ in range(r.choice([0, 1, 2, 4, 8, 16, 30])):
            k = r.random()
            n = r.choice(ns)
            if k < .5: x = r.choice(keys[n])
            elif k < .7: x = r.choice(vals[n])
            elif k < .85: x = r.choice([0x41, 0x61, 0x130, 0x131, 0xdf, 0x1e9e, 0x3a3, 0x3c2, 0x149, 0x1c5, 0x345, 0x1f80, 0xff21, 0x3000, 0xff9e, 0x10400, 0x1f88, 0x2460, 0x20])
            else: x = r.randint(1, 0x10ffff)
            if good(x): out += chr(x).encode()
            if r.random() < .05: out += r.choice([b"\xff", b"\x80", b"\0", b"\x1b[m", b"\xe3\x80"])
        return out
    for _ in range(4000 if thorough() else 700):
        mid, ns = [], []
        for _ in range(r.choice([1, 1, 2, 3])):
            q = r.sample(list(full), r.choice([1, 1, 2, 3])); ns += q
            mid.append(phase(2, *[tabs[x] for x in q]))
        for _ in range(4):
            d = text(ns)
            if all(good(ord(x)) or x == "\0" for x in d.decode("utf-8", "replace")): add(mid, d)
    K.run(c, b, cases, env)
if __name__ == "__main__":
    main(run, "C19")
