"""Character sets as others have them: Python's codecs, glibc's iconv, ICU - and, where the tree's
tables depart from those or nobody else has the set, what tools/mkcharsets.py took down."""
import ctypes, glob, json, os, zlib
from vlib import SPEC, CheckError

def py(name):
    def f(b):
        try: return b.decode(name)
        except UnicodeError: return None
    return f
def pyenc(name):
    def f(ch):
        try: return ch.encode(name)
        except UnicodeError: return None
    return f
_libc = ctypes.CDLL(None)
_libc.iconv_open.restype = ctypes.c_void_p
_libc.iconv.restype = ctypes.c_size_t
_libc.iconv.argtypes = [ctypes.c_void_p] * 5
_libc.iconv_close.argtypes = [ctypes.c_void_p]
def iconv(name):
    cd = _libc.iconv_open(b"UTF-32LE", name.encode())
    if cd in (None, ctypes.c_void_p(-1).value): raise CheckError("no iconv " + name)
    def f(b):
        _libc.iconv(cd, None, None, None, None)
        ib, ob = ctypes.create_string_buffer(b, len(b)), ctypes.create_string_buffer(64)
        ip, op = ctypes.c_void_p(ctypes.addressof(ib)), ctypes.c_void_p(ctypes.addressof(ob))
        il, ol = ctypes.c_size_t(len(b)), ctypes.c_size_t(64)
        _libc.iconv(cd, ctypes.byref(ip), ctypes.byref(il), ctypes.byref(op), ctypes.byref(ol))
        if il.value: return None
        return ob.raw[:64 - ol.value].decode("utf-32le", "surrogatepass")
    return f
def _icu():
    p = sorted(glob.glob("/usr/lib/*/libicuuc.so.*"), key=len)
    if not p: raise CheckError("no ICU")
    v = p[0].split("so.")[1].split(".")[0]
    lib = ctypes.CDLL(p[0])
    return lambda n: getattr(lib, n + "_" + v)
def icuenc(name):
    """encoder with ICU, one-way mappings included"""
    F = _icu()
    op = F("ucnv_open"); op.restype = ctypes.c_void_p
    fu = F("ucnv_fromUChars"); fu.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_int32, ctypes.c_char_p, ctypes.c_int32, ctypes.POINTER(ctypes.c_int)]
    sf = F("ucnv_setFallback"); sf.argtypes = [ctypes.c_void_p, ctypes.c_byte]
    st = F("ucnv_setFromUCallBack"); st.argtypes = [ctypes.c_void_p] * 5 + [ctypes.POINTER(ctypes.c_int)]
    e = ctypes.c_int(0); cd = op(name.encode(), ctypes.byref(e))
    if e.value > 0: raise CheckError("ICU has no " + name)
    e = ctypes.c_int(0); st(cd, ctypes.cast(F("UCNV_FROM_U_CALLBACK_STOP"), ctypes.c_void_p), None, None, None, ctypes.byref(e))
    sf(cd, 1)
    def f(ch):
        s, o, e = ch.encode("utf-16le"), ctypes.create_string_buffer(32), ctypes.c_int(0)
        r = fu(cd, o, 32, s, len(s) // 2, ctypes.byref(e))
        return o.raw[:r] or None if e.value <= 0 else None
    return f

HIGH = [bytes([a]) for a in range(128, 256)]
TWO = [bytes([a, b]) for a in range(128, 256) for b in range(256)]
def double(f):
    """table of a set of one or two bytes above ASCII"""
    d = {k: f(k) for k in HIGH}
    d = {k: v for k, v in d.items() if v}
    d.update({k: v for k in TWO if k[:1] not in d for v in [f(k)] if v and len(v) == 1})
    return d
def sevenbit(f): return {bytes([a & 127, b & 127]): v for a in range(0xa1, 0xff) for b in range(0xa1, 0xff) for v in [f(bytes([a, b]))] if v and len(v) == 1}
def ebcdic(name):
    f = iconv(name)
    d = {bytes([a]): f(bytes([a])) for a in range(1, 256)}
    d = {k: v for k, v in d.items() if v}
    if name != "IBM037":
        d[b"\x0e"], d[b"\x0f"] = "\x0e", "\x0f" #(entries the codec never looks up)
        d.update({bytes([a, b]): v for a in range(0x40, 0xff) for b in range(0x40, 0xff) for v in [f(b"\x0e" + bytes([a, b]) + b"\x0f")] if v and len(v) == 1})
    return d
BMP = [chr(x) for x in range(1, 0x10000) if not 0xd800 <= x < 0xe000]
def ebcdic_enc(name):
    f = icuenc(name)
    e = {c: f(c) for c in BMP}
    e = {c: v[1:-1] if v[0] == 14 and len(v) > 1 else v for c, v in e.items() if v}
    if name != "ibm-37": e["\x0e"], e["\x0f"] = b"\x0e", b"\x0f"
    return e
def high_enc(f, above=0x7f):
    e = {c: f(c) for c in BMP if ord(c) > above}
    return {c: v for c, v in e.items() if v}
def inverse(d): return {v: k for k, v in sorted(d.items(), reverse=True)}

# what others have: name -> function giving {bytes: character}
DEC = {"_CP%d" % n: (lambda n=n: double(py("cp%d" % n))) for n in (1251, 1252, 1253, 1254, 1255, 1256, 1257, 1258, 874, 932, 949, 950)}
DEC["_CP936"] = lambda: {**double(py("gbk")), b"\x80": "€"}
DEC["_GBK"] = lambda: {**{k: v for k, v in double(py("gb18030")).items() if len(k) == 2}, **double(py("gbk"))}
DEC["_GB2312"] = lambda: double(py("gb2312"))
DEC["_ISO-8859-1"] = lambda: {bytes([a]): chr(a) for a in range(0xa0, 0x100)}
DEC["_SHIFT-JIS"] = lambda: double(py("shift_jis"))
DEC["_HKSCS2004"] = lambda: {k: v for k, v in double(py("big5hkscs")).items() if k not in double_cp950()}
DEC["_HKSCS2001"] = lambda: specified("from", "_HKSCS2004")
DEC["_HKSCS1999"] = lambda: specified("from", "_HKSCS2001")
DEC["_BIG5-ETEN"] = DEC["_BIG5E"] = DEC["_BIG5-2003"] = DEC["_UAO250"] = lambda: double(py("cp950"))
DEC["_UAO241"] = lambda: specified("from", "_UAO250")
DEC["BIG5-5C"] = lambda: {k + b"\\": v for k, v in double(py("cp950")).items() if k[1] == 0x5c}
DEC["CCCII"] = lambda: {}
DEC["_JIS0201"] = lambda: {k: v for a in list(range(0x21, 0x7f)) + list(range(0xa1, 0xe0)) for k in [bytes([a])] for v in [iconv("SJIS")(k)] if v and (a > 127 or v != chr(a))}
DEC["_JIS0208"] = lambda: sevenbit(py("euc_jp"))
DEC["_JIS0212"] = lambda: sevenbit(lambda b: py("euc_jp")(b"\x8f" + b))
DEC["_GB18030"] = lambda: {**{k: v for k, v in double(py("gb18030")).items() if len(k) == 2}, **{v: c for c in BMP for v in [pyenc("gb18030")(c)] if v and len(v) == 4 and ord(c) > 127}}
for n in (37, 930, 933, 935, 937, 939): DEC["IBM-%d" % n] = lambda n=n: ebcdic("IBM%03d" % n)
_c = []
def double_cp950():
    if not _c: _c.append(double(py("cp950")))
    return _c[0]
# name -> function giving {character: bytes}
ENC = {n: (lambda n=n: inverse(DEC[n]())) for n in ("_CP1251", "_CP1252", "_CP1253", "_CP874", "_CP949", "_GB2312", "_ISO-8859-1", "_SHIFT-JIS", "_JIS0212", "_GBK", "_GB18030", "BIG5-5C")}
ENC["_CP936"] = lambda: inverse(DEC["_CP936"]())
ENC["_CP950"] = lambda: high_enc(icuenc("windows-950-2000"))
ENC["CCCII"] = lambda: inverse(specified("from", "CCCII"))
ENC["_UAO250"] = lambda: inverse(specified("from", "_UAO250"))
ENC["_UAO241"] = lambda: specified("to", "_UAO250")
for n in (37, 930, 933, 935, 937, 939): ENC["IBM-%d" % n] = lambda n=n: ebcdic_enc("ibm-%d" % n)

FILE = os.path.join(SPEC, "data", "charsets.z")
def departures():
    """{"from/NAME": {hex: text or None}, "to/NAME": {text: hex or None}}"""
    with open(FILE, "rb") as fp: return json.loads(zlib.decompress(fp.read()))
_memo = {}
def specified(kind, n):
    """a table as it is specified: {bytes: text} or {character: bytes}"""
    if (kind, n) not in _memo:
        t = dict((DEC if kind == "from" else ENC)[n]())
        if "dep" not in _memo: _memo["dep"] = departures()
        for k, v in _memo["dep"].get(kind + "/" + n, {}).items():
            if kind == "from": k = bytes.fromhex(k)
            elif v is not None: v = bytes.fromhex(v)
            if v is None: t.pop(k, None)
            else: t[k] = v
        _memo[kind, n] = t
    return _memo[kind, n]
def cell(ch): return b"\x01" + (ord(ch).to_bytes(3, "big").lstrip(b"\0") or b"\0")
