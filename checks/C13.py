"""Unicode encodings and GB18030 transcode losslessly; malformed sequences and unrepresentable
characters are counted (Transcode.tla decides every case)."""
import sys, os, itertools, atexit
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import corpus
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from C12 import run_cases

FULL = ["UTF-8", "UTF-16LE", "UTF-16BE", "UTF-32LE", "UTF-32BE", "GB18030"]
TO = FULL + ["UCS-2LE", "UCS-2BE"]
ALIAS = {"UTF-16LE": ["UTF-16LE", "UTF-16"], "UTF-32LE": ["UTF-32LE", "UTF-32", "UCS-4", "UCS-4LE"], "UTF-32BE": ["UTF-32BE", "UCS-4BE"],
         "UTF-16BE": ["UTF-16BE"], "UTF-8": ["UTF-8"], "GB18030": ["GB18030"], "UCS-2LE": ["UCS-2LE", "UCS-2"], "UCS-2BE": ["UCS-2BE"]}
FROM_ALIAS = dict({k: [k] for k in FULL}, **{"UTF-16LE": ["UTF-16LE", "UCS-2", "UCS-2LE"], "UTF-16BE": ["UTF-16BE", "UCS-2BE"]})

def enc(name, cps):
    s = "".join(map(chr, cps))
    if name == "UTF-8": return s.encode("utf-8", "surrogatepass")
    if name == "GB18030": return s.encode("gb18030", "replace")
    return s.encode(name.lower(), "surrogatepass")
def codecs(name):
    return ([{"name": "ASCII", "opts": []}] if name in ("UTF-8", "GB18030") else []) + [{"name": name, "opts": []}]

def gb_tables(d):
    enc_, two, four = [], [-1] * (191 * 126), [-1] * 39420
    for c in range(65536):
        if c < 128 or 0xd800 <= c < 0xe000: enc_.append([]); continue
        y = list(chr(c).encode("gb18030"))
        enc_.append(y)
        if len(y) == 2: two[191 * (y[0] - 129) + y[1] - 64] = c
        else: four[((y[0] - 129) * 10 + y[1] - 48) * 1260 + (y[2] - 129) * 10 + y[3] - 48] = c
    env = {}
    for k, v in (("GB", enc_), ("GB2", two), ("GB4", four)):
        env[k] = os.path.join(d, k + ".json")
        with open(env[k], "w") as fp: json.dump(v, fp)
    return env

def run(c):
    b = Build()
    env = gb_tables(scratch("vfgb-"))
    blocks = list(range(0, 17408)) if thorough() else sorted(set(list(range(0, 16)) + c.rng.sample(range(16, 1024), 40) + c.rng.sample(range(1024, 17408), 12) + [863, 864, 895, 896, 897] + [x for p in range(1, 17) for x in (1024 * p - 1, 1024 * p)] + [17407]))
    spec_blocks = sorted(c.rng.sample(blocks, 1500 if thorough() else 24))
    r = tlc("MCTranscode", "SPECIFICATION Spec\nCONSTANT Blocks = {%s}\nINVARIANT Reversible\nCHECK_DEADLOCK FALSE\n" % ", ".join(map(str, spec_blocks)), workers=NCPU, heap="6g", env=env, timeout=1500)
    if not r.ok: raise CheckError("MCTranscode: " + r.out[-2000:])
    c.model("MCTranscode", r, "there and back between all pairs of encodings is the identity on scalar values")
    cases, convs = [], []
    pair = 0
    def add(f, t, data):
        cases.append({"from": codecs(f), "to": codecs(t), "in": list(data)})
        convs.append(c.rng.choice(FROM_ALIAS[f]) + ":" + c.rng.choice(ALIAS[t]))
    pairs = list(itertools.product(FULL, TO))
    for k, blk in enumerate(blocks):
        cps = [x for x in range(64 * blk, 64 * blk + 64)]
        for f, t in (pairs if not thorough() else [pairs[(k * 7 + j * 5) % len(pairs)] for j in range(6)]):
            q = [x for x in cps if not (f == "GB18030" and 0xd800 <= x < 0xe000)]
            if q: add(f, t, enc(f, q))
    # GB18030's own arrangement, character by character
    if not thorough():
        for blk in range(2, 1024):
            q = [x for x in range(64 * blk, 64 * blk + 64) if not 0xd800 <= x < 0xe000]
            if q: add("UTF-16LE", "GB18030", enc("UTF-16LE", q)); add("GB18030", "UTF-16LE", enc("GB18030", q))
    # the edges of its four bytes and its two
    e1, e2 = [0x80, 0x81, 0x84, 0x85, 0x8f, 0x90, 0xe3, 0xe4, 0xfe, 0xff], [0x2f, 0x30, 0x31, 0x32, 0x39, 0x3a]
    for q in itertools.product(e1, e2):
        for u in [bytes(q + w) for w in itertools.product([0x80, 0x81, 0xa4, 0x9a, 0xfe, 0xff], [0x2f, 0x30, 0x35, 0x36, 0x39, 0x3a])]:
            if thorough() or c.rng.random() < .25: add("GB18030", c.rng.choice(TO), u + c.rng.choice([b"", b"A", b"\x81\x40", b"\x30"]))
    for q in itertools.product([0x80, 0x81, 0xa1, 0xa2, 0xa9, 0xaa, 0xf7, 0xf8, 0xfe, 0xff], [0x3f, 0x40, 0x7e, 0x7f, 0x80, 0xa0, 0xa1, 0xfe, 0xff]):
        add("GB18030", c.rng.choice(TO), bytes(q) + c.rng.choice([b"", b"A", b"\x81\x40", b"\x30"]))
    # mixed and malformed
    n = 20000 if thorough() else 2500
    def unit(f):
        k = c.rng.random()
        if k < .6:
            return enc(f, [c.rng.choice([c.rng.randint(1, 127), c.rng.randint(128, 0xd7ff), c.rng.randint(0xe000, 0xffff), c.rng.randint(0x10000, 0x10ffff), c.rng.choice([0x10000, 0x10ffff, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0xfffd])])])
        if f.startswith("UTF-16"):
            w = c.rng.choice([0xd800, 0xdbff, 0xdc00, 0xdfff, 0xd840, 0xdc37, 0xe000, 0xd7ff, 0])
            return w.to_bytes(2, "little" if f.endswith("LE") else "big")
        if f.startswith("UTF-32"):
            w = c.rng.choice([0x110000, 0xffffffff, 0x80000000, 0xd800, 0x10ffff, 0, 0x01000000, 0x00ffffff])
            return w.to_bytes(4, "little" if f.endswith("LE") else "big")
        if f == "GB18030":
            return bytes(c.rng.choice([[0x84, 0x31, 0xa4, 0x39], [0x84, 0x31, 0xa5, 0x30], [0x8f, 0x39, 0xfe, 0x39], [0x90, 0x30, 0x81, 0x30], [0xe3, 0x32, 0x9a, 0x35], [0xe3, 0x32, 0x9a, 0x36],
                                       [0xfe, 0x39, 0xfe, 0x39], [0x81, 0x30], [0x81, 0x30, 0x81], [0x81], [0x80], [0xff], [0x81, 0x7f], [0xfe, 0xfe], [0xa2, 0xab], [c.rng.randint(0x81, 0xfe), c.rng.randint(0x30, 0x39), c.rng.randint(0x81, 0xfe), c.rng.randint(0x30, 0x39)],
                                       [c.rng.randint(0x81, 0xfe), c.rng.randint(0x40, 0xfe)]]))
        return bytes([c.rng.choice([0x80, 0xbf, 0xc0, 0xc3, 0xe3, 0xed, 0xf0, 0xf4, 0xf8, 0xff])])
    for _ in range(n):
        f, t = c.rng.choice(pairs)
        s = b"".join(unit(f) for _ in range(c.rng.randint(1, 8)))
        if c.rng.random() < .3: s = s[:c.rng.randint(0, len(s))]
        add(f, t, s)
    run_cases(c, b, cases, convs, env)
    # whatever cells there are: what is no character is not written as one
    import kit as K
    ks = []
    for n in ("UTF-8", "UTF-16LE", "UTF-16BE", "UTF-32LE", "UTF-32BE", "UCS-2LE", "UCS-2BE"):
        to = K.named("UTF-8", K.TO["UTF-8"], K.TO["ASCII"]) if n == "UTF-8" else [K.TO[n]]
        for _ in range(1500 if thorough() else 150):
            q = []
            for _ in range(c.rng.choice([1, 2, 4, 8])):
                v = c.rng.choice([c.rng.choice([0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x11ffff, 0x1fffff, 0x200000, 0x7fffff, 0x800000, 0x900041, 0xffffff, 0x1000000, 0x4100000041, 0x80000000, 0x80000041, 0xffffffff, 0x100000000, 0x8000004100]),
                                  c.rng.randint(1, 0xd7ff), c.rng.randint(0xe000, 0x10ffff), c.rng.randint(0x110000, 0xffffff), c.rng.randint(0x1000000, 0xffffffff)])
                q.append((1, v.to_bytes((v.bit_length() + 7) // 8, "big")) if c.rng.random() < .85 else (c.rng.choice([2, 3, 4, 0x1b]), bytes([c.rng.randint(1, 255)])))
            ks.append(K.case([K.phase(1, K.FROM["BSDCONV"]), K.phase(3, *to)], b"".join(b"%02X%s," % (t, x.hex().encode()) for t, x in q), ("IERR", "OERR")))
    K.run(c, b, ks, {})
if __name__ == "__main__":
    main(run, "C13")
