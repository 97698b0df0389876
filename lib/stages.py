"""Stages with arguments drawn at random, as text: for conversions whose outcome is compared with
another run of the code (chunkings, reuse, neighbours, composition), not with a codec's own specification."""
import os
import kit as K, filters
import corpus
from vlib import *
LF = b"\x01\n"
SOME = [b"\x01a", b"\x01\n", b"\x01\r", b"\x01\x20\x26", b"\x03\xa4", b"\x01\x4e\x2d", b"\x1b[m", b"\x01 ", b"\x01b", b"\x01A", b"\x01\xa0", b"\x01\x01\xf6\x00", b"\x02\x01\x44\x21", b"\x01N", b"\x01\x4e"]
NOT = {"from": {"BSDCONV-LOG", "ALIAS", "PASS", "ANY"}, "to": {"BSDCONV-LOG", "BSDCONV-OUTPUT", "BSDCONV-STDOUT", "ALIAS", "ANY", "PASS", "NULL"}, "inter": {"SCORE", "SCORE-TRAIN", "ALIAS-FROM", "ALIAS-INTER", "ALIAS-TO", "REPLACE", "INSERT"}}
_ok = {}
def setup(b):
    """which of the built modules can be used as they are"""
    for kind, form in (("from", "%s:UTF-8"), ("inter", "UTF-8:%s:UTF-8"), ("to", "UTF-8:%s")):
        ns = [n for n in corpus.names(b, kind) if n not in NOT[kind]]
        L = [l for n in ns for l in ("create 0 " + h(form % n), "destroy 0")]
        res, crash = b.run(L)
        if crash: raise CheckError("the library died (rc=%s) on %s\n%s" % (crash["rc"], crash["op"], crash["stderr"][:800]))
        _ok[kind] = [n for n, q in zip(ns, res[::2]) if q["ok"]]
def shipped(kind): return _ok[kind]
def some(r, a=0, z=3): return [r.choice(SOME) for _ in range(r.randint(a, z))]
def flt(r): return r.choice([None, 1, 2, 3, 0x1b, r.choice(filters.all_filters()), filters.named("PRINT"), filters.named("CJK")])
def one(r):
    k = r.randint(0, 15)
    if k == 0: return K.count(r.choice(["CNT", "Lines", "COUNT"]), flt(r))
    if k in (1, 2): return K.pass_inter(flt(r), r.choice([0, 1, 1, 2, 3, 7]))
    if k in (3, 4): return K.insert(some(r, 0, 2), some(r, 0, 2))
    if k in (5, 6): return K.replace(some(r, 1, 3), some(r, 0, 3))
    if k == 7: return K.replace([r.choice(SOME[:4])] * r.randint(1, 3), some(r, 0, 2))
    if k in (8, 9): return K.strings(r.choice([filters.named("PRINT"), flt(r) or 1]), r.choice([0, 1, 1, 2, 3, 5]), some(r, 0, 2), r.choice([[LF], some(r, 0, 2)]), filters.named("PRINT"))
    if k in (10, 11): return K.trim(r.choice([0, 1, 2, 3, 5, 9, 20]), r.random() < .5)
    return {"text": r.choice([n for n in shipped("inter")])}
def inter(r):
    """one or more phases"""
    if r.random() < .1:
        return ":".join(["WHITESPACE-DERAIL"] + [r.choice(["WIDTH", "ZHTW", "UPPER", "REPLACE#0161.0162=0162.0161", "REPLACE#0120.0161=0161.0120", "REPLACE#0161.0161.0162=0161.0162.0161", K.pass_inter(flt(r), 2)["text"]]) for _ in range(r.choice([0, 1, 2]))] + ["WHITESPACE-RERAIL"])
    ks = [one(r)["text"]]
    while r.random() < .2: ks.insert(r.randint(0, len(ks)), r.choice([one(r), K.replace(some(r, 1, 2), some(r, 0, 2))])["text"])
    return ",".join(ks)
CE = [None, "", "CNT", "ierr", "Oerr"]
def frm(r):
    ks = r.sample(shipped("from"), r.choice([0, 1, 1, 2]))
    if r.random() < .6: ks += [K.utf8(*r.choice([(), ("LOOSE",), ("CESU",), ("LOOSE", "SUPER"), ("OVERLONG",), ("CESU", "LOOSE")]))["text"]]
    if r.random() < .5: ks += ["ASCII"]
    q = r.random()
    if q < .35 or not ks: ks += ["BYTE"]
    elif q < .7: ks += [K.any_from(r.choice([None, some(r, 1, 3)]), r.choice(CE), r.random() < .2)["text"]]
    return ",".join(ks)
def to(r):
    ks = r.sample(shipped("to"), r.choice([0, 1, 1, 2]))
    if r.random() < .3: ks += [K.escape_to(bytes(r.randrange(256) for _ in range(r.randint(1, 3))), bytes(r.randrange(256) for _ in range(r.randint(0, 3))), r.choice([16, 10, 8]), r.choice([1, 3]))["text"]]
    if r.random() < .5: ks += ["UTF-8"]
    q = r.random()
    if q < .3 or not ks: ks += ["BYTE"]
    elif q < .6: ks += [K.any_to(r.choice([None, [r.choice([b"?", b"!!", b"\xff", b"<?>"]) for _ in range(r.choice([1, 2]))]]), r.choice(CE), r.random() < .2)["text"]]
    elif q < .75: ks += [K.pass_to(flt(r))["text"]]
    return ",".join(ks)
