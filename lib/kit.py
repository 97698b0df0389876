"""Conversions as Codecs.tla knows them: descriptions of codecs with their text, tables as
tries, running cases and letting TLC decide them."""
import json, os, re
from vlib import *
import conform, corpus

_D = {"ft": -1, "fr": []}
def K(text, k, **kw): return dict(text=text, rec=dict(k=k, **kw))
def filt(f):
    """(text, fields) of a filter: type number or (name, ranges)"""
    if f is None: return "", {"ft": -1, "fr": []}
    if isinstance(f, int): return {1: "UNICODE", 2: "2", 3: "BYTE", 0x1b: "ANSI"}[f], {"ft": f, "fr": []}
    return f[0], {"ft": -2, "fr": f[1]}
def cells(q): return ".".join(x.hex() for x in q)
def args(*a):
    a = [x for x in a if x]
    return "#" + "&".join(a) if a else ""
def simple(*names): return {n: K(n, n) for n in names}
FROM = simple("ASCII", "00", "FALLBACK-UNICODE", "BYTE", "HEX", "UTF-16LE", "UTF-16BE", "UTF-32LE", "UTF-32BE", "ESCAPE", "BSDCONV", "ANSI-CONTROL", "CP950-UDA")
FROM["NCR"] = K("ASCII-NUMERIC-HTML-ENTITY", "NCR")
TO = simple("ASCII", "00", "UTF-16LE", "UTF-16BE", "UCS-2LE", "UCS-2BE", "UTF-32LE", "UTF-32BE", "BYTE", "HEX", "RAW", "BSDCONV", "NULL")
TO["UTF-8"] = K("_UTF-8", "UTF-8")
TO["IMG"] = K("ASCII-HTML-UNICODE-IMG", "IMG")
TO["INFO"] = K("ASCII-HTML-INFO", "INFO")
INTER = simple("NULL", "WIDTH", "BIG5-DEFRAG", "WHITESPACE-DERAIL", "WHITESPACE-RERAIL")
def ambi(what, pad=1): return K("AMBIGUOUS-" + what, "AMBIGUOUS-" + what, pad=pad)
def utf8(*o): return K("_UTF-8" + args(*o), "UTF-8", opts=list(o))
def any_(data=None, counter=None, drop=False, default=b"?", count="IERR"):
    """ANY: data (None: the default), counter (None none, "" the error counter)"""
    out = [] if drop else [default] if data is None else data
    a = args("" if data is None else cells(data), "DROP" if drop else "", "" if counter is None else "ERROR" + ("=" + counter if counter else ""))
    return K("ANY" + a, "ANY", data=[list(x) for x in out], c=[] if counter is None else [(counter or count).upper()])
def any_from(data=None, counter=None, drop=False): return any_(data, counter, drop, b"\x01?", "IERR")
def any_to(data=None, counter=None, drop=False): return any_(data, counter, drop, b"?", "OERR")
def pass_from(f=None, unmark=0): t, r = filt(f); return K("PASS" + args("UNMARK" if unmark else "", "FOR=" + t if t else ""), "PASS", unmark=int(unmark), **r)
def pass_to(f=None, mark=0): t, r = filt(f); return K("PASS" + args("MARK" if mark else "", "FOR=" + t if t else ""), "PASS", mark=int(mark), **r)
def pass_inter(f=None, limit=0): t, r = filt(f); return K("PASS" + args("FOR=" + t if t else "", "LIMIT=%d" % limit if limit else ""), "PASS", lim=limit, **r)
def escape_to(prefix=b"%u", suffix=b"", mode=16, for_=1, explicit=False):
    a = args("PREFIX=" + prefix.hex() if prefix != b"%u" or explicit else "", "SUFFIX=" + suffix.hex() if suffix else "", "MODE=%d" % mode if mode != 16 or explicit else "",
             "FOR=" + {1: "UNICODE", 3: "BYTE"}[for_] if for_ != 1 or explicit else "")
    k = K("ESCAPE" + a, "ESCAPE", pre=list(prefix), suf=list(suffix), mode=mode); k["rec"]["for"] = for_
    return k
def count(name="COUNT", f=None): t, r = filt(f); return K("COUNT" + args(name if name != "COUNT" else "", "FOR=" + t if t else ""), "COUNT", c=[name.upper()], **r)
def insert(before=(), after=()): return K("INSERT" + args("AFTER=" + cells(after) if after else "", "BEFORE=" + cells(before) if before else ""), "INSERT", before=[list(x) for x in before], after=[list(x) for x in after])
def replace(old, new=()): return K("REPLACE#" + cells(old) + ("=" + cells(new) if new else ""), "REPLACE", old=[list(x) for x in old], new=[list(x) for x in new])
def strings(f, minlen=1, before=(), after=(b"\x01\n",), printable=None):
    t, r = filt(f)
    return K("STRINGS" + args("FOR=" + t if f is not printable else "", "MIN-LEN=%d" % minlen if minlen != 1 else "", "BEFORE=" + cells(before) if before else "", "AFTER=" + cells(after) if list(after) != [b"\x01\n"] else ""),
             "STRINGS", min=minlen, before=[list(x) for x in before], after=[list(x) for x in after], **r)
def trim(width, wide=False): return K("TRIM-WIDTH" + args(str(width), "AMBI-AS-WIDE" if wide else ""), "TRIM-WIDTH", width=width, ambi=2 if wide else 1)
def score(ranges, with_=None, as_=None): return K("SCORE" + args("WITH=" + with_ if with_ else "", "AS=" + as_ if as_ else ""), "SCORE", rs=ranges, c=[(as_ or "SCORE").upper()])
LOG = K("BSDCONV-LOG", "LOG")
CELLS_OUT = pass_to()

class Tries:
    """tables by number"""
    def __init__(self): self.t, self.idx = [], {}
    def add(self, name, entries):
        """entries: (symbols, list of cells as bytes); first of equal keys wins"""
        if name in self.idx: return self.idx[name]
        nodes = [{"o": [], "n": {}}]
        for key, out in entries:
            u = 0
            for d in key:
                v = nodes[u]["n"].get(d)
                if v is None:
                    v = len(nodes); nodes[u]["n"][d] = v; nodes.append({"o": [], "n": {}})
                u = v
            if not nodes[u]["o"]: nodes[u]["o"] = [[list(x) for x in out]]
        for n in nodes:
            if n["n"]:
                a = [0] * 257
                for d, v in n["n"].items(): a[d] = v + 1
                n["n"] = a
            else: n["n"] = []
        self.t.append(nodes); self.idx[name] = len(self.t)
        return self.idx[name]
    def write(self, d):
        p = os.path.join(d, "tries.json")
        with open(p, "w") as fp: json.dump(self.t, fp, separators=(",", ":"))
        return p
def key_cells(q):
    r = []
    for i, x in enumerate(q): r += ([256] if i else []) + list(x)
    return r

def phase(t, *ks): return (t, list(ks))
def text(ps):
    """conversion string of phases [(type, codecs)]"""
    out = ""
    open_ = False
    for t, ks in ps:
        s = ",".join(k["text"] for k in ks if k["text"])
        if not s: continue #(what an alias before stands for)
        if not out: out = s
        else: out += ("|" if t == 1 or (t == 2 and not open_) else ":") + s
        open_ = t == 1 or (t == 2 and open_)
    return out
def case(ps, data, names=("IERR", "OERR"), cells=None):
    last = ps[-1]
    if cells is None: cells = 1
    return {"text": text(ps), "ps": [{"t": t, "ks": [k["rec"] for k in ks]} for t, ks in ps], "in": list(data), "names": list(names), "cells": cells}

def run(c, b, cases, env=None, cut=0.5, shards=NCPU):
    """run the cases on the library, TLC decides"""
    rng = c.rng
    order = sorted(range(len(cases)), key=lambda i: cases[i]["text"])
    lists = [order[k * len(order) // shards:(k + 1) * len(order) // shards] for k in range(shards)]
    lists = [l for l in lists if l]
    scripts, envs = [], []
    lg = scratch("vfl-")
    for l in lists:
        L, last, own = [], None, []
        paths = [os.path.join(lg, "%s%d" % (x, len(envs))) for x in "ft"]
        envs.append(b.env(BSDCONV_FROM_LOG=paths[0], BSDCONV_TO_LOG=paths[1]))
        for i in l:
            k = cases[i]
            if k["text"] != last:
                if last is not None: L.append("destroy 0"); own.append(None)
                L.append("create 0 " + h(k["text"])); own.append(("create", i)); last = k["text"]
            L += ["creset 0 -", "init 0"]; own += [None, None]
            for x in k.get("ctl", []): L.append("ctl 0 %d %d" % tuple(x)); own.append(None)
            data = bytes(k["in"])
            parts = corpus.split(rng, data) if len(data) > 1 and rng.random() < cut else [data]
            k["cuts"] = [len(x) for x in parts]
            for j, x in enumerate(parts):
                if j and rng.random() < .3: #said again: changes nothing
                    for y in k.get("ctl", []): L.append("ctl 0 %d %d" % tuple(y)); own.append(None)
                L.append("cellout 0 %d %s" % (j == len(parts) - 1, hx(x))); own.append(("out", i))
            if "log" in k:
                for x in paths: L.append("slurp " + h(x)); own.append(("log", i))
        scripts.append((L, own))
    ok = []
    for (L, own), (res, crash) in zip(scripts, b.run_many([L for L, _ in scripts], envs=envs)):
        if crash:
            i = next((o[1] for o in reversed(own[:crash["line"] + 1]) if o), None)
            k = cases[i] if i is not None else None
            c.violation("the library died (rc=%s) on %s %s\n%s" % (crash["rc"], k and k["text"], k and bytes(k["in"]).hex()[:200], crash["stderr"][:800]), {"script": L[max(0, crash["line"] - 8):crash["line"] + 1]})
        for o, r in zip(own, res):
            if o is None: continue
            k = cases[o[1]]
            if o[0] == "create":
                if not r["ok"]: raise CheckError("not accepted: " + k["text"])
                continue
            if o[0] == "log": k["log"] += r["data"]; continue
            k.setdefault("raw", []).append(r)
    sel = []
    for i, k in enumerate(cases):
        raw = k.pop("raw", [])
        if len(raw) != len(k["cuts"]): continue
        cs = [x for r in raw for x in r["cells"] if x]
        k["got"] = {"out": [list(bytes.fromhex(x)) for x in cs] if k["cells"] else list(bytes.fromhex("".join(cs))), "c": [raw[-1]["ctr"].get(n, 0) for n in k["names"]]}
        #whether a cell's memory is its own is no one's matter
        if "log" in k: k["got"]["log"] = list(bytes.fromhex(k["log"]).replace(b" FREE", b"").replace(b" ( )", b""))
        sel.append(i)
    strip = lambda k: {x: k[x] for x in ("ps", "in", "names", "cells", "got", "log") if x in k}
    for j, e in conform.conform(c, "Codecs", [strip(cases[i]) for i in sel], env=env, shards=shards):
        k = cases[sel[j]]
        hexed = lambda g: {"out": [bytes(x).hex() for x in g["out"]] if k["cells"] else bytes(g["out"]).hex(), "c": dict(zip(k["names"], g["c"])), **({"log": bytes(g["log"]).decode("latin1")} if "log" in g else {})}
        c.violation("%s on %s (in pieces of %s): specification %s, code %s" % (k["text"], bytes(k["in"]).hex()[:300], k["cuts"][:30], json.dumps(hexed(e))[:500], json.dumps(hexed(k["got"]))[:500]),
                    {"conversion": k["text"], "input": bytes(k["in"]).hex(), "pieces": k["cuts"], "expected": hexed(e), "got": hexed(k["got"])})
    c.count("conversions_run", len(sel)); c.count("distinct_conversions", len({cases[i]["text"] for i in sel}))
    for i in rng.sample(sel, min(5, len(sel))):
        k = cases[i]; c.sample({"conversion": k["text"], "input": bytes(k["in"]).hex()[:80], "units_out": len(k["got"]["out"]), "counters": dict(zip(k["names"], k["got"]["c"]))})

def table(kind, name):
    """entries of a table source whose lines are plain: no wildcards, no callbacks"""
    r = []
    with open(os.path.join(REPO, "modules", kind, name + ".txt"), "rb") as fp:
        for l in fp:
            f = l.split()
            if not f or l[:1] == b"#" or not re.fullmatch(rb"[0-9A-Fa-f,]+", f[0]): continue
            if len(f) < 2: raise CheckError("line of %s/%s" % (kind, name))
            k, v = f[0].decode(), f[1].decode()
            if v == "?": raise CheckError("callback in %s/%s" % (kind, name))
            v = v.lstrip("?") #data of a callback
            cs = lambda s: [bytes.fromhex(x) for x in s.split(",") if x]
            r.append((list(bytes.fromhex(k)) if kind == "from" else key_cells(cs(k)), cs(v)))
    return r
def named(text, *ks):
    """codecs that an alias stands for: only the first carries a text"""
    return [dict(ks[0], text=text)] + [dict(k, text=None) for k in ks[1:]]
