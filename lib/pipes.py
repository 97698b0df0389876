"""Random multi-stage conversions made of shipped codecs."""
import stages as ST
FROMS = ["UTF-8", "UTF-8,3F", "ASCII,BYTE", "BIG5,BYTE", "UTF-8,BIG5", "GB18030,BYTE", "UTF-16LE", "UTF-16BE,BYTE", "ESCAPE,UTF-8", "NCR,NAMED-HTMLENTITY,UTF-8",
         "ANSI-CONTROL,UTF-8,BYTE", "CP932,BYTE", "JIS,BYTE", "UTF-8#LOOSE,BYTE", "ASCII,_UTF-8#CESU,BYTE", "GBK,UTF-8,BYTE", "IBM-930", "IBM-37,BYTE", "00,UTF-8,SUB",
         "CP950,BYTE", "UTF-32LE", "SHIFT-JIS,UTF-8,BYTE", "BIG5-5C,UTF-8", "HEX,ASCII", "CP1252", "HKSCS2004,BYTE", "ISO-8859-1,BYTE", "CCCII,BYTE", "UTF-8,SKIP"]
INTERS = ["NFC", "NFD", "NFKC", "NFKD", "UPPER", "LOWER", "CASEFOLD", "FULL", "HALF", "ZHTW", "ZHCN", "ZHTW:ZHTW-WORDS", "WHITESPACE-DERAIL:ZHTW:WHITESPACE-RERAIL",
          "WHITESPACE-DERAIL:ZHTW:ZHTW-WORDS:WHITESPACE-RERAIL", "COUNT", "COUNT#FOR=CJK", "WIDTH", "UNIX", "WIN", "MAC", "NL2BR", "INSERT#AFTER=002C", "SPLIT", "NOBOM",
         "REPLACE#0161.0162=0139", "REPLACE#0161.0161=0139.0138,REPLACE#0162=", "TRIM-WIDTH#6", "STRINGS#FOR=CJK", "STRINGS#MIN-LEN=2", "AMBIGUOUS-PAD", "AMBIGUOUS-PAD:AMBIGUOUS-UNPAD",
         "PASS#LIMIT=4", "PASS#FOR=UNICODE", "ASCIIFOLD", "KANJI", "HANJA", "SUPER,NULL", "UPSIDEDOWN", "BIG5-DEFRAG", "ZH-FUZZY-TW", "KANA-PHONETIC", "NFKD-CASEFOLD", "UPPER,FULL", "PASS"]
INTERS = [i for i in INTERS if "162=" not in i or "," not in i]
TOS = ["UTF-8", "UTF-8,3F", "ASCII,3F", "BIG5,BYTE", "GB18030", "GB18030,BYTE", "UTF-16LE", "UTF-16BE", "UTF-32LE", "BSDCONV", "URL", "ASCII,HTMLENTITY", "ASCII,NAMED-HTMLENTITY,NCR" if 0 else "ASCII,NAMED-HTMLENTITY",
       "CP936,3F", "SHIFT-JIS,ANY#3F&ERROR", "BYTE,UTF-8", "RAW", "JAVA", "ASCII,JAVA", "UTF-8,BYTE", "CP950,CP950-TRANS,3F", "IBM-930,3F", "BSDCONV-KEYWORD,UTF-8", "UTF-8,ANY#3F.3F"]

def random_inter(rng): return rng.choice(INTERS) if rng.random() < .5 else ST.inter(rng)
def random_to(rng): return rng.choice(TOS) if rng.random() < .6 else ST.to(rng)
def random_from(rng): return rng.choice(FROMS) if rng.random() < .6 else ST.frm(rng)
def random_pipe(rng, maxinter=3, stages=1):
    segs = []
    for s in range(stages):
        k = rng.choice([0, 1, 1, 2, maxinter])
        last = s == stages - 1
        t = rng.choice(["UTF-8", "UTF-8,BYTE", "UTF-16LE", "BIG5,BYTE", "GB18030", "BSDCONV", "UTF-8,3F", "BYTE,UTF-8"]) if not last and rng.random() < .8 else random_to(rng)
        f = rng.choice(["UTF-8,BYTE", "UTF-16LE,BYTE", "BIG5,UTF-8", "GB18030,BYTE", "BSDCONV", "UTF-8,3F", "ASCII,BYTE"]) if s and rng.random() < .8 else random_from(rng)
        segs.append(":".join([f] + [random_inter(rng) for _ in range(k)] + [t]))
    return "|".join(segs)

def pipe_input(rng, corpus, conv):
    f = conv.split(":")[0].split(",")
    w = []
    for x in f:
        x = x.split("#")[0]
        n = rng.choice([x, "_" + x])
        ks = corpus.words_of("from", n)
        w += ks if len(ks) < 30 else [rng.choice(ks) for _ in range(30)]
    x = corpus.from_input(rng, w, rng.choice([3, 6, 10]))
    if rng.random() < .5:
        y = b"".join(rng.choice([b"a", b"a", b"b", b"A", b" ", b"\n", b"\r\n", b"N", "中".encode(), b"\xa4", b"\x1b[m", "\xa0".encode(), "…".encode(), b"0161,", b"014E2D,", b"030A,"]) for _ in range(rng.choice([1, 3, 8])))
        i = rng.randint(0, len(x))
        x = x[:i] + y + x[i:]
    return x
