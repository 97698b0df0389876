"""Inputs for the shipped codecs: conversions that exercise each of them and byte
strings built from the keys of its own mapping table (so that multi-byte sequences,
shared prefixes and abandoned sequences are reached) plus hand-picked fragments for
the codecs that are programs rather than tables."""
import os, re
from vlib import *

SKIP = {"from": {"BSDCONV-LOG", "ALIAS"}, "to": {"BSDCONV-LOG", "BSDCONV-OUTPUT", "BSDCONV-STDOUT"},
        "inter": {"SCORE", "SCORE-TRAIN"}}

FROM_ARGS = {"_UTF-8": ["", "#CESU", "#LOOSE", "#SUPER", "#LOOSE&CESU", "#LOOSE&SUPER"],
             "PASS": ["", "#UNMARK"],
             "ANY": ["#013F", "#013F&ERROR", "#0141.0142&DROP", "#013F&ERROR=CNT", "#DROP"],
             "ESCAPE": ["", "#PREFIX=5C75&MODE=16", "#PREFIX=25&MODE=8", "#PREFIX=26&MODE=10&SUFFIX=3B"],
             }
INTER_ARGS = {"INSERT": ["#AFTER=002C", "#BEFORE=0141.0142", "#AFTER=002C&BEFORE=0143"],
              "REPLACE": ["#0161.0162=0131", "#0161.0161.0162=0131.0132", "#01FEFF", "#0161.0162.0161.0163=0139"],
              "STRINGS": ["#FOR=CJK", "#MIN-LEN=3", "#MIN-LEN=2&AFTER=013B.010A", "#FOR=CJK&MIN-LEN=2&BEFORE=013C&AFTER=013E", ""],
              "TRIM-WIDTH": ["#3", "#5&AMBI-AS-WIDE", "#0", "#7"],
              "PASS": ["", "#LIMIT=3", "#FOR=UNICODE", "#FOR=1&LIMIT=2", "#FOR=CJK", "#FOR=BYTE"],
              "COUNT": ["", "#FOR=CJK", "#X&FOR=UNICODE", "#LINES"],
              "NULL": [""]}
TO_ARGS = {"ANY": ["#3F", "#3F.2F&ERROR", "#DROP&ERROR=CC", "#DROP"],
           "ESCAPE": ["#PREFIX=5C75&MODE=16&FOR=UNICODE", "#PREFIX=25&MODE=16&FOR=BYTE", "#PREFIX=5C&MODE=8&FOR=BYTE",
                      "#PREFIX=2623&MODE=10&SUFFIX=3B&FOR=UNICODE", "#PREFIX=2575"],
           "PASS": ["", "#FOR=UNICODE", "#MARK"]}

import functools
@functools.lru_cache(None)
def table_keys(kind, name, cap=4000):
    """[list of cells/bytes] for each key of the mapping table"""
    p = os.path.join(REPO, "modules", kind, name + ".txt")
    r = []
    if not os.path.exists(p):
        return r
    with open(p, "rb") as fp:
        for l in fp:
            f = l.split()
            if not f or l.startswith(b"#"):
                continue
            k = f[0].decode("latin1").lstrip("!")
            k = k.replace("*", "41").lower()
            if not re.fullmatch(r"[0-9a-f,]+", k):
                continue
            r.append(k.strip(","))
            if len(r) > 60000:
                break
    return r

def names(build, kind):
    d = os.path.join(build.path, "share", "bsdconv", kind)
    return sorted(f for f in os.listdir(d) if "." not in f and f not in SKIP.get(kind, ()) and f != "alias")

UNI = ["a", "b", "é", "中", "文", "😀", "ß", "ﬀ", "한", "\u1112\u1161\u11ab", "e\u0301\u0323", "\u00a1", "\u2014", "Б"]
FRAG = [b"\\u4e2d", b"\\u0041", b"%u4e2d", b"%41", b"\\x41", b"\\101", b"\\U00010000", b"&#65;", b"&amp;", b"&#x41;", b"&#x1F600;", b"&lt", b"&#",
        b"\x1b[1m", b"\x1b[1;31m", b"\x1b[", b"\x0e\x42\xc1\x0f", b"\x0e", b"\x0f", b"\x1b$B", b"\x1b(B", b"\x1b(I", b"\x1b$(D", b"\x1b(J", b"0141,", b"014E2D,", b"01",
        b",", b"\x00", b"\xed\xa0\xbd\xed\xb8\x80", b"\xed\xa0\x80", b"\xc0\x80", b"\xf4\x90\x80\x80", b"\xf8\x88\x80\x80\x80", b"\xd8\x3d\xde\x00",
        b"\x3d\xd8\x00\xde", b"\x90\x30\x81\x30", b"\x81\x30\x81\x30", b"\xe3\x32\x9a\x35", b"\xa4\x40", b"\xfa\x40", b"\x88\x62"]

# ---- grammars of the codecs that are programs: complete sequences, hex -------------
def _cp(r):
    return r.choice([r.randint(0, 0x7f), r.randint(0x80, 0x7ff), r.randint(0x800, 0xd7ff), r.randint(0xe000, 0xffff), r.randint(0x10000, 0x10ffff),
                     r.randint(0xd800, 0xdfff), r.choice([0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x1fffff])])
def _u8(c, n=None):
    """UTF-8 of c in n bytes (n larger than needed: overlong)"""
    if n is None: n = 1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4 if c < 0x200000 else 5 if c < 0x4000000 else 6
    if n == 1: return bytes([c & 0x7f])
    b = []
    for _ in range(n - 1):
        b.insert(0, 0x80 | (c & 0x3f)); c >>= 6
    return bytes([((0xff00 >> n) & 0xff) | (c & (0x7f >> n))] + b)
def _w(*a): return b"".join(bytes([x]) if isinstance(x, int) else x for x in a)
def g_utf8(r):
    k = r.random()
    if k < .6: return _u8(_cp(r))
    if k < .75:
        c = _cp(r); return _u8(c, min(6, len(_u8(c)) + r.choice([1, 1, 2])))
    if k < .95:
        c = r.choice([r.randint(0x10000, 0x10ffff), 0x1f600]) - 0x10000
        hi, lo = _u8(0xd800 + (c >> 10)), _u8(0xdc00 + (c & 0x3ff))
        return r.choice([hi + lo, hi + lo, hi, lo, lo + hi, hi + b"a", hi + hi + lo])
    return _u8(r.randint(0x110000, 0x7fffffff))
def g_ansi(r):
    return r.choice([b"\x1b[%dm" % r.randint(0, 99), b"\x1b[%d;%d;%dm" % (r.randint(0, 9), r.randint(0, 99), r.randint(0, 255)), b"\x1b[2J", b"\x1b[H", b"\x1b[12", b"\x1b[", b"\x1b",
                     b"\x1b7", b"\x1bOP", b"\x1b[1;", b"\x1b[" + b"1;" * r.choice([5, 13, 14, 20]) + b"2m", b"\x1b[38;5;1"])
def g_u16(r, le):
    def u(x): return x.to_bytes(2, "little" if le else "big")
    c = _cp(r)
    if c > 0x10ffff: c = 0x10ffff
    if c > 0xffff:
        c -= 0x10000; hi, lo = u(0xd800 + (c >> 10)), u(0xdc00 + (c & 0x3ff))
        return r.choice([hi + lo, hi + lo, hi + u(0x41), lo + hi, hi[:1]])
    return u(c) if r.random() < .9 else u(c)[:1]
def g_u32(r, le):
    c = r.choice([_cp(r), _cp(r), _cp(r), r.randint(0, 0xffffffff)])
    b = c.to_bytes(4, "little" if le else "big")
    return b if r.random() < .85 else b[:r.randint(1, 3)]
def g_gb(r):
    k = r.random()
    if k < .35: return chr(min(_cp(r) & ~0 if r.random() < .5 else r.randint(0x80, 0xd7ff), 0x10ffff)).encode("gb18030", "ignore")
    if k < .5: return _w(r.randint(0x81, 0xfe), r.randint(0x30, 0x39))
    if k < .65: return _w(r.randint(0x81, 0xfe), r.randint(0x30, 0x39), r.randint(0x81, 0xfe))
    if k < .8: return _w(r.randint(0x81, 0xfe), r.randint(0x30, 0x39), r.randint(0x81, 0xfe), r.randint(0x2f, 0x3a))
    return _w(r.randint(0x80, 0xff), r.randint(0x40, 0xff))
def g_esc(r):
    return r.choice([b"\\u%04x" % r.randint(0, 0xffff), b"%%u%04X" % r.randint(0, 0xffff), b"%%%02x" % r.randint(0, 255), b"\\x%02x" % r.randint(0, 255),
                     b"\\%03o" % r.randint(0, 511), b"\\%o" % r.randint(0, 77), b"\\U%08x" % r.randint(0, 0x110000), b"\\u{%x}" % r.randint(0, 0x10ffff), b"\\u12", b"%4", b"\\x", b"\\", b"\\U0001f6",
                     b"\\n", b"\\\\", b"%", b"%u", b"\\d65", b"&%d;" % r.randint(0, 0x110000), b"\\0"])
def g_ncr(r):
    return r.choice([b"&#%d;" % _cp(r), b"&#x%x;" % _cp(r), b"&#%d" % _cp(r), b"&#x;", b"&#;", b"&#", b"&", b"&#99999999999;", b"&#X41;", b"&#x4e2d", b"&#12a;", b"&#x12g;"])
def g_bsd(r):
    return r.choice([b"0141,", b"014e2d,", b"01ac00,", b"0411ff,", b"1b5b41,", b"0141", b"01", b"0", b"014", b"014g,", b",", b"0141414141414141,", b"01d800,", b"\n", b"a0B,"])
def g_jis(r):
    e = r.choice([b"\x1b$B", b"\x1b$@", b"\x1b(B", b"\x1b(J", b"\x1b(I", b"\x1b$(D", b"\x1b.A", b"\x1b$A", b"\x1b$(C", b"\x1b(", b"\x1b$", b"\x1b"])
    t = bytes(r.randint(0x21, 0x7e) for _ in range(r.randint(0, 5)))
    return r.choice([e, e + t, e + t + b"\x1b(B", t, b"\n"])
def g_ebcdic(r):
    t = bytes(r.randint(0x40, 0xfe) for _ in range(r.randint(0, 5)))
    return r.choice([b"\x0e" + t + b"\x0f", b"\x0e", b"\x0f", b"\x0e" + t, t, b"\x0e\x42\xc1\x42\xc2\x0f\xc1", b"\xc1", b"\x0e\x0e", b"\x0f\x0f", b"\x0e\x40\x40"])
def g_uda(r):
    return _w(r.choice([r.randint(0x81, 0xfe), 0xfa, 0xc6, 0x8e, 0x81, 0xfe, 0xc8, 0xa0, 0x8d]), r.choice([r.randint(0x40, 0x7e), r.randint(0xa1, 0xfe), r.randint(0, 255), 0x40, 0x7e, 0xa1, 0xfe]))
def g_bytes(r): return bytes(r.randint(0, 255) for _ in range(r.randint(1, 4)))
GEN = {"_UTF-8": g_utf8, "ANSI-CONTROL": g_ansi, "UTF-16LE": lambda r: g_u16(r, True), "UTF-16BE": lambda r: g_u16(r, False), "UTF-32LE": lambda r: g_u32(r, True),
       "UTF-32BE": lambda r: g_u32(r, False), "_GB18030": g_gb, "ESCAPE": g_esc, "ASCII-NUMERIC-HTML-ENTITY": g_ncr, "BSDCONV": g_bsd, "_JIS": g_jis, "CP950-UDA": g_uda,
       "EBCDIC": g_ebcdic, "PASS": g_bytes, "ANY": g_bytes}
@functools.lru_cache(None)
def words_of(kind, name, n=160):
    """hex words to build inputs of the codec from"""
    w = list(table_keys(kind, name))
    r = random.Random("%s/%s/%d" % (kind, name, SEED))
    if kind == "from":
        g = GEN.get(name) or (g_ebcdic if name.startswith("IBM-9") or name.startswith("_IBM-9") else None)
        if g:
            w = (r.sample(w, 80) if len(w) > 80 else w) + [x for x in (g(r).hex() for _ in range(n)) if x]
    elif kind == "inter":
        ws = INTER_WORDS.get(name)
        if ws: w = (r.sample(w, 60) if len(w) > 60 else w) + ws
    return w
_MARKS = ["010301", "010323", "010308", "010327", "010345", "013099", "010338", "010315", "0105b0", "010f71", "01302a", "01031b"]
_NF = [",".join([b] + m) for b in ["0141", "0161", "0165", "016f", "01304b", "01c5", "011e63", "0103b1", "0144", "010915", "010f40", "0131"]
       for m in [["010301"], ["010323", "010302"], ["010302", "010323"], ["010327", "010301"], ["010301", "010301"], ["010345", "010301", "010313"], ["013099"], ["0105b0", "010323", "010338"], []]] + \
      ["011100,011161,0111a8", "011112,011161", "01ac00,0111a8", "01d7a3,0111c2", "011100,010301,011161", "01ac01,0111a8", "011112,0111ab", "01ac00", "0344", "010f73,010f71", "01212b", "012126",
       "010958", "012adc", "01f900", "01fb1d", "01d15e"] + _MARKS
_WS = ["0120", "0109", "010a", "010d", "013000", "0120,0120", "014e2d,0120,016587", "018edf,0120,019ad4", "010d,010a", "014e00", "016587", "01a0", "0120,010a,0120"]
_BIG5 = ["03a4", "03a4,1b5b33316d,0340", "03a4,0340", "03a4,1b5b6d,1b5b316d,03e5", "1b5b6d", "0341", "03e5", "0161", "03a4,03", "03,0340", "03a4,1b5b6d", "03a4,0161"]
_WID = ["0161", "014e2d", "0100a1", "01a1", "012014", "010301", "01ff21", "01ff71", "011100", "013042", "0391", "02a4", "011f600", "01ac00", "0162,014e2d", "0141,0142,0143"]
INTER_WORDS = {"_NFC": _NF, "_NF-ORDER": _NF, "_NFD": _NF, "NFC": _NF, "NFD": _NF, "NFKC": _NF, "NFKD": _NF, "_NF-HANGUL-COMPOSITION": _NF, "_NF-HANGUL-DECOMPOSITION": _NF,
    "WHITESPACE-DERAIL": _WS, "WHITESPACE-RERAIL": _WS, "BIG5-DEFRAG": _BIG5, "TRIM-WIDTH": _WID, "WIDTH": _WID, "AMBIGUOUS-PAD": _WID, "AMBIGUOUS-UNPAD": _WID + ["01a1,01a0", "012014,01a0", "01a0,01a0", "01a1,01a0,01a0", "0161,01a0"],
    "REPLACE": ["0161,0162", "0161,0161,0162", "0161,0161", "0161", "0162", "01feff", "0161,0162,0161,0163", "0161,0162,0161,0162", "0161,0162,0161,0162,0161,0163"],
    "STRINGS": ["0161", "0161,0162", "0161,0162,0163", "014e2d", "016587,014e2d", "0a01", "010a", "0101", "0300", "04ff", "0161,0101,0162", "014e2d,0161"],
    "INSERT": ["0161", "014e2d"], "COUNT": ["0161", "014e2d", "0161,010a,0162"], "PASS": ["0161", "014e2d", "0341", "03a4", "1b5b6d"]}

def from_input(rng, words, maxn=6):
    out = b""
    for _ in range(rng.randint(1, maxn)):
        c = rng.random()
        if c < .45 and words:
            out += bytes.fromhex(rng.choice(words).replace(",", ""))
        elif c < .62 and words:
            w = bytes.fromhex(rng.choice(words).replace(",", ""))
            out += w[:rng.randint(0, len(w))]
        elif c < .75:
            s = rng.choice(UNI)
            out += s.encode(rng.choice(["utf-8", "utf-8", "utf-16le", "utf-16be", "utf-32le", "utf-32be", "gb18030"]))
        elif c < .9:
            out += rng.choice(FRAG)
        else:
            out += bytes(rng.randint(0, 255) for _ in range(rng.randint(1, 3)))
    return out

CELLS = ["0141", "0142", "0161", "0162", "0163", "0131", "0120", "0109", "010a", "010d", "013000", "014e2d", "016587", "01ac00", "011100", "011161", "0111a8",
         "011112", "0111ab", "01d55c", "0165", "010301", "010323", "0100e9", "01e9", "01ff21", "01ff76", "01fb00", "01dfb", "01a1", "012014", "010411", "0a0141", "0391",
         "03a4", "0240", "022a21", "1b5b316d", "011f600", "01df", "01fffd", "01feff", "01", "00", "01d800", "01e000", "0110ffff", "010100", "01aaaa", "0141424344", "04ff",
         "01300b", "01304b", "013099", "0130ab", "01a0", "0127", "0122", "013c", "0126"]
CELLS = [c for c in CELLS if len(c) % 2 == 0]

def cell_input(rng, words, maxn=7, long_cells=True):
    out = []
    for _ in range(rng.randint(1, maxn)):
        c = rng.random()
        if c < .40 and words:
            out += rng.choice(words).split(",")
        elif c < .58 and words:
            w = rng.choice(words).split(",")
            out += w[:rng.randint(0, len(w))]
        elif c < .62 and words:
            # leave a match and re-enter it: overlap of two keys
            a, b = rng.choice(words).split(","), rng.choice(words).split(",")
            out += a[:-1] + b
        elif c < .95:
            out.append(rng.choice(CELLS))
        else:
            out.append("".join("%02x" % rng.randint(0, 255) for _ in range(rng.randint(1, 5))))
    return [x for x in out if x]

def cell_text(cells):
    return (",".join(cells)).encode() + b","

def from_cases(build):
    for f in names(build, "from"):
        w = words_of("from", f)
        for a in FROM_ARGS.get(f, [""]):
            yield f + a + ":BSDCONV", w, "from"

def inter_cases(build):
    for f in names(build, "inter"):
        w = words_of("inter", f)
        if w and not any("," in x or len(x) > 2 for x in w):
            w = []
        for a in INTER_ARGS.get(f, [""]):
            yield "BSDCONV:" + f + a + ":BSDCONV", w, "inter"

def to_cases(build):
    for f in names(build, "to"):
        w = table_keys("to", f)
        for a in TO_ARGS.get(f, [""]):
            yield "BSDCONV:" + f + a, w, "to"

def split(rng, x, empties=False):
    """random chunking of x, biased to single bytes; may contain empty chunks"""
    n = len(x)
    if rng.random() < .35:
        cuts = list(range(1, n))
    else:
        k = rng.randint(1, max(1, min(n, 6)))
        cuts = sorted(rng.sample(range(0, n + 1), min(k, n)))
    p, r = 0, []
    for c in cuts + [n]:
        if c > p or empties and rng.random() < .3:
            r.append(x[p:c])
        p = c
    return r or [x]
