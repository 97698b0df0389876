"""Character sets: every code there is read, every character written, as Python, glibc and ICU have it
(and spec/data/charsets.z where those do not know the set); errors where there is nothing."""
import sys, os, json, unicodedata
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import corpus, kit as K, oracle
from kit import FROM as F, TO as T, INTER as I, phase

CP = lambda n, f=1: (("_CP%d" % n, "ASCII", "FALLBACK-UNICODE"))
# alias -> codecs it stands for (a name with an underscore or in TABLES: a table)
READ = {**{"CP%d" % n: ["_CP%d" % n, "ASCII", "FALLBACK-UNICODE"] for n in (1251, 1252, 1253, 1254, 1255, 1256, 1257, 1258)}, "CP874": ["ASCII", "_CP874", "FALLBACK-UNICODE"],
        **{n: ["ASCII", "_" + n] for n in ("CP932", "CP936", "CP949", "GBK", "GB18030", "GB2312", "ISO-8859-1", "SHIFT-JIS", "UAO241", "UAO250", "BIG5E", "BIG5-2003", "BIG5-ETEN")},
        "LATIN1": ["ASCII", "_ISO-8859-1"], "BIG5": ["ASCII", "_UAO250"], "MOZ18": ["ASCII", "_UAO241"],
        "CP950": ["ASCII", "_CP950", "CP950-UDA"], **{"HKSCS" + y: ["ASCII", "_CP950", "_HKSCS" + y] for y in ("1999", "2001", "2004")},
        "CCCII": ["CCCII"], "IBM-37": ["IBM-37"], "BIG5-5C,CP950": ["BIG5-5C", "ASCII", "_CP950", "CP950-UDA"]}
WRITE = {**{"CP" + n: ["_CP" + n, "ASCII"] for n in ("1251", "1252", "1253", "874", "936", "949", "950")}, **{n: ["_" + n, "ASCII"] for n in ("GB18030", "GB2312", "GBK", "ISO-8859-1", "SHIFT-JIS", "UAO241", "UAO250")},
         "BIG5": ["_CP950", "ASCII"], "UAO": ["_UAO250", "ASCII"], "CCCII": ["CCCII"], "IBM-37": ["IBM-37"], "BIG5-5C,CP950": ["BIG5-5C", "_CP950", "ASCII"]}
for n in (930, 933, 935, 937, 939): READ["IBM-%d" % n] = WRITE["IBM-%d" % n] = ["IBM-%d" % n]
ONE_WAY = ["_CP950", "_UAO241", "_UAO250", "IBM-37", "IBM-930", "IBM-933", "IBM-935", "IBM-937", "IBM-939"]

def laws(c):
    sets = []
    for n in oracle.DEC:
        D, E = oracle.specified("from", n), oracle.specified("to", n) if n in oracle.ENC else {}
        dk, ek = sorted(D), sorted(E)
        di, ei = {k: i + 1 for i, k in enumerate(dk)}, {k: i + 1 for i, k in enumerate(ek)}
        sets.append({"name": n, "dec": [[list(k), ord(D[k]), ei.get(D[k], 0)] for k in dk if len(D[k]) == 1], "enc": [[ord(k), list(E[k]), di.get(E[k], 0)] for k in ek],
                     "shifts": n[:5] == "IBM-9", "ascii": n[0] == "_" and "JIS0" not in n, "exact": n in oracle.ENC and n not in ONE_WAY})
        if n in ("BIG5-5C",): sets[-1]["enc"] = []; sets[-1]["exact"] = False; sets[-1]["dec"] = []
    trans = []
    for n, cs in (("CP936-TRANS", "_CP936"), ("GBK-TRANS", "_GBK"), ("GB2312-TRANS", "_GB2312"), ("CP950-TRANS", "_CP950")):
        i = [x["name"] for x in sets].index(cs); D = oracle.specified("from", cs); at = {k: j + 1 for j, k in enumerate(sorted(D))}; outs = []
        for key, o in K.table("to", n):
            v = b"".join(o); q, p = [], 0
            while p < len(v):
                if v[p] < 128: q.append(0); p += 1
                elif v[p:p + 2] in at: q.append(at[v[p:p + 2]]); p += 2
                else: q.append(at.get(v[p:p + 1], 0)); p += 1
            outs.append([list(v), q])
        trans.append({"set": i + 1, "outs": outs})
    d = scratch("vfk-")
    with open(os.path.join(d, "c.json"), "w") as fp: json.dump({"sets": sets, "trans": trans}, fp, separators=(",", ":"))
    m = tlc("MCCharsets", "SPECIFICATION Spec\nINVARIANTS Indexed PrefixFree AsciiKept Stable OneToOne Readable\nCHECK_DEADLOCK FALSE\n", workers=NCPU, env={"CHARSETS": os.path.join(d, "c.json")}, timeout=1200, heap="6g")
    if m.violated and "Invariant Readable" in m.out: c.violation("a transliteration writes what its character set cannot read: " + m.out[m.out.find("Error:"):][:300], {"tlc": m.out[-2000:]})
    elif not m.ok: raise CheckError("MCCharsets: " + m.out[-2000:])
    c.model("MCCharsets", m, "%d sets, %d codes, %d characters: what is read can be written and is read again as the same, no code begins another, ASCII is kept" % (len(sets), sum(len(s["dec"]) for s in sets), sum(len(s["enc"]) for s in sets)))

def run(c):
    r = c.rng
    laws(c)
    b = Build()
    nm = ("IERR", "OERR")
    # what is written under a name is read under it, where the set has the character for itself
    U8 = K.named("UTF-8", F["ASCII"], K.utf8())
    back = []
    for a in sorted(set(READ) & set(WRITE)) + ["JIS", "UTF-8", "UTF-16LE", "UTF-16BE", "UTF-32LE", "UTF-32BE", "UCS-2LE", "UCS-2BE", "UCS-2"]:
        if a == "JIS": texts = ["\u4e02\u3042"]
        else:
            if a in READ:
                own = {}
                for n in READ[a]:
                    if ("from", n) in oracle._memo:
                        for k, v in oracle.specified("from", n).items(): own.setdefault(v, k)
                pool = [ch for n in WRITE[a] if ("to", n) in oracle._memo for ch, k in oracle.specified("to", n).items() if len(ch) == 1 and any(oracle.specified("from", m).get(k) == ch for m in READ[a] if ("from", m) in oracle._memo)]
                if a == "BIG5": pool = [ch for ch in oracle.specified("to", "_CP950") if oracle.specified("from", "_UAO250").get(oracle.specified("to", "_CP950")[ch]) == ch]
                pool = sorted(x for x in set(pool) if x not in "\x0e\x0f" and not ("," in a and ord(x) < 0x80))
            else: pool = oracle.BMP
            texts = ["".join(r.choice(pool) for _ in range(r.choice([1, 5, 30]))) for _ in range(60 if thorough() else 15)]
            if a[:3] not in ("IBM", "CCC", "BIG"): texts += ["".join(chr(x) for x in range(1, 128)), "a\\b~c"]
        for x in texts:
            k = K.case([phase(1, *U8), phase(3, K.CELLS_OUT)], x.encode(), nm, cells=1)
            k["text"] = "UTF-8:%s|%s:PASS" % (a, a); back.append(k)
    K.run(c, b, back)
    cell = oracle.cell
    dense = 24 #codes a case
    units = sorted(((sum(len(oracle.specified(kind, n)) for n in al[a] if n in oracle.DEC), kind, a) for kind, al in (("from", READ), ("to", WRITE)) for a in al), reverse=True)
    bins = [[0, []] for _ in range(2 * NCPU)]
    for w, kind, a in units:
        x = min(bins, key=lambda x: x[0]); x[0] += w + 500; x[1].append((kind, a))
    jobs = []
    for _, g in bins:
        tr = K.Tries(); cases = []
        def codec(kind, n):
            if n in ("ASCII", "FALLBACK-UNICODE", "CP950-UDA"): return (F if kind == "from" else T)[n]
            t = oracle.specified(kind, n)
            if kind == "from": ti = tr.add("f" + n, [(list(k), [cell(x) for x in v]) for k, v in sorted(t.items())])
            else: ti = tr.add("t" + n, [(K.key_cells([cell(x) for x in k]), [v]) for k, v in sorted(t.items())])
            return K.K(n, "EBCDIC" if n[:5] == "IBM-9" else "TABLE", t=ti)
        for kind, a in g:
            if True:
                al = READ if kind == "from" else WRITE
                ks = K.named(a, *[codec(kind, n) for n in al[a]])
                if "," in a: ks[1]["text"] = None
                tabs = [oracle.specified(kind, n) for n in al[a] if n[0] == "_" or n in oracle.DEC and n not in ("CP950-UDA",)]
                eb = a[:5] == "IBM-9"
                keys = sorted({k for t in tabs for k in t})
                if a in ("LATIN1", "BIG5", "MOZ18", "UAO"): keys = r.sample(keys, min(len(keys), 400)) #an alias of an alias
                if kind == "from" and a == "CP950": keys += [bytes([x, y]) for x in list(range(0x81, 0xa1)) + list(range(0xfa, 0xff)) + list(range(0xc6, 0xc9)) for y in (0x40, 0x7e, 0xa1, 0xfe)]
                keyset = set(keys); r.shuffle(keys)
                def put(seq): #of bytes, or characters
                    if kind == "from":
                        if eb:
                            data, two = b"", False
                            for k in seq:
                                if (len(k) == 2) != two: two = not two; data += b"\x0e" if two else b"\x0f"
                                data += k
                            data += b"\x0f" if two else b""
                        else: data = b"".join(seq)
                        cases.append(K.case([phase(1, *ks), phase(3, K.CELLS_OUT)], data, nm, cells=1))
                    else:
                        data = "".join(seq).encode("utf-8", "surrogatepass")
                        cases.append(K.case([phase(1, *U8), phase(3, *ks)], data, nm, cells=0))
                if eb and kind == "from": keys = [k for k in keys if k not in (b"\x0e", b"\x0f")]; keys.sort(key=lambda k: (len(k), r.random()))
                if eb and kind == "to": keys = [k for k in keys if k not in "\x0e\x0f"]
                ascii_ = [chr(x) for x in range(1, 128)]
                for i in range(0, len(keys), dense): put(keys[i:i + dense])
                if not eb:
                    for i in range(1, 128, 40): put([bytes([x]) if kind == "from" else chr(x) for x in range(i, min(i + 40, 128))])
                # what there is not, and what there is in between
                other = oracle.specified(kind, r.choice([n for n in ("_CP950", "_GBK", "_UAO250", "_CP949") if (kind, n) in oracle._memo]) if any((kind, n) in oracle._memo for n in ("_CP950", "_GBK", "_UAO250", "_CP949")) else "_CP1252") if kind == "to" else {}
                ok = sorted(other)
                for _ in range(60 if thorough() else 12):
                    q = []
                    for _ in range(r.choice([1, 3, 8, 16])):
                        x = r.random()
                        if x < .5: q.append(r.choice(keys))
                        elif kind == "from": q.append(r.choice([bytes([r.randrange(1, 256)]), r.choice(keys)[:1], bytes([r.randrange(128, 256)]), bytes([r.randrange(256), r.randrange(256)])]))
                        else: q.append(r.choice([r.choice(corpus.UNI), r.choice(ok), chr(r.choice([r.randrange(0x80, 0xd800), r.randrange(0xe000, 0x110000)])), r.choice(ascii_)]))
                    if kind == "from" and eb and any(len(k) > 2 for k in q): continue
                    if a == "GB18030": #(what is computed, beyond the plane: C12)
                        if kind == "from": q = [k for k in q if k in keyset]
                        else: q = [x for x in q if x < "\U00010000"]
                    put([x for x in q if kind == "from" or x != "\0"])
        env = {"TRIES": tr.write(scratch("vfk-"))}
        jobs.append((cases, env))
    with ThreadPoolExecutor(NCPU) as ex: list(ex.map(lambda j: K.run(c, b, j[0], j[1], cut=.2, shards=1), jobs))
if __name__ == "__main__":
    main(run, "C22")
