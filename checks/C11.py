"""Compiled tables mean what their sources say: TableText.tla reads the source text and
decides what codecs made of it (by the real table compiler) do, for synthetic tables of every
shape and for the shipped tables."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import engine, conform

HEXS = [0x41, 0x61, 0x42, 0x5a, 0x7a, 0x7b, 0x40, 0x5b, 0x60, 0x01, 0x00, 0xff, 0x80]

def rand_source(rng, kind, cb):
    """[(line text)], the alphabet used"""
    al = rng.sample(HEXS, rng.randint(2, 5))
    if rng.random() < .5: al = list({0x41, 0x61, *al})
    ci_ok = rng.random() < .6
    wild = rng.random() < .5
    keys, lines = [], []
    hexs = lambda b: ("%02X" if rng.random() < .8 else "%02x") % b
    outs = []
    def cell():
        if outs and rng.random() < .3:       # shared tails
            return rng.choice(outs)[-rng.randint(1, 3):]
        c = [rng.choice([1, 1, 2, 3, 4, 0x1b]) if kind != "to" else rng.randrange(256)] + [rng.choice(al + [rng.randrange(256)]) for _ in range((rng.choice([0, 1, 1, 1, 2, 3, 9]) if rng.random() > .004 else rng.choice([255, 256, 600, 1100, 2500])))]
        outs.append(c)
        return c
    for _ in range(rng.choice([1, 2, 4, 8, 16, 30, 60])):
        if keys and rng.random() < .55:
            k = [list(x) for x in rng.choice(keys)]
            m = rng.random()
            if kind == "from":
                k = [k[0] + [rng.choice(al)]] if m < .4 else [k[0][:-1] or k[0]] if m < .7 else [[(t if rng.random() < .7 else rng.choice(al)) for t in k[0]]]
            else:
                if m < .35: k = k + [[1, rng.choice(al)]]
                elif m < .5: k = k[:-1] or k
                else: k = [[c[0]] + [(t if rng.random() < .7 else rng.choice(al)) for t in c[1:]] for c in k]
        elif kind == "from":
            k = [[rng.choice(al) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))]]
        else:
            k = [[rng.choice([1, 1, 1, 3])] + [rng.choice(al) for _ in range(rng.choice([1, 1, 1, 2, 3]))] for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        iscb = cb and rng.random() < .35
        if kind == "from" and wild and rng.random() < .3:
            k = [[("*" if rng.random() < .4 else t) for t in k[0]]]
        elif wild and rng.random() < .3 and all(len(c) == 2 for c in k):
            k = [[c[0], "*" if rng.random() < .5 else c[1]] for c in k]
        if kind != "from" and iscb:
            k = [k[0][:1]]
        if kind == "from" and len(k[0]) > 6: continue
        # with callbacks on whole cells the table has two levels (as the shipped ones do): the code
        # behind the callback, and single entries
        if cb and kind != "from" and not iscb and len(k[0]) != 2: continue
        if len(k) > 4 or (cb and kind != 'from' and len(k) > 1): continue
        flat = [t for x in k for t in x]
        if sum(t == "*" for t in flat[:-1]) > 1: continue    # the compiler expands them: 257 nodes each
        keys.append([[t if t != "*" else rng.choice(al) for t in c] for c in k])
        ks = ",".join("".join("*" if t == "*" else hexs(t) for t in c) for c in k)
        n = rng.choice([1, 1, 1, 1, 2, 3, 0]) if not iscb else rng.choice([0, 1, 1])
        os_ = ",".join("".join(hexs(x) for x in cell()) for _ in range(n))
        ci = ci_ok and rng.random() < .4
        l = ("!" if ci else "") + ks + rng.choice(["\t", "\t", "\t\t", " ", "  \t "]) + ("?" if iscb else "") + os_ + rng.choice(["", "", "", " ", "\t# note", " trailing words", "#x", "\r"])
        if not os_ and not iscb: l = l.replace(" trailing words", "")
        lines.append(l)
        if rng.random() < .08: lines.append(rng.choice(["#", "# a comment", "#41\t0141", "##", "", "  ", "\t"]))
    return lines, al, keys

def walk_ops(rng, kind, al, keys):
    """keys given to the debugger unit by unit"""
    ops = []
    for _ in range(rng.randint(3, 9)):
        k = rng.choice(keys)
        u = list(k[0])
        for x in k[1:]: u += [256] + list(x)
        m = rng.random()
        if m < .3: u = u[:-1]
        elif m < .5: u = [(t ^ 0x20) if t < 256 and rng.random() < .5 else t for t in u]
        elif m < .65: u.append(rng.choice(al + [256]))
        elif m < .75: u[rng.randrange(len(u)) if u else 0:] = [rng.randrange(257)]
        ops += u + ([-1] if rng.random() < .7 else [])
    return ops

def walks(c, b, tabs, cases):
    def one(x):
        inp = "".join("reset 0\n" if o < 0 else "input 0x%x\n" % o for o in x["ops"]) + "quit 0\n"
        p = subprocess.run([os.path.join(b.path, "bin", "bsdconv-dbg"), x["kind"].upper(), x["name"]], input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=tabs.env(), timeout=60)
        got = []
        for s in re.split(r"bsdconv_dbg@[0-9a-f]+> ", p.stdout.decode("latin-1")):
            m = re.match(r"State: (\w+)\nBeg: 0x(\w+)\nEnd: 0x(\w+)\nData:(.*)", s, re.S)
            if m:
                d = m.group(4).split("\n")
                got.append({"st": m.group(1), "data": [] if d[0] == " 0x0" else [list(bytes.fromhex(y)) for y in d if y]})
        return p.returncode, got, p.stderr.decode("latin-1")
    pick = [x for x in cases if x["name"].startswith("ZZT") and x.get("ops")]
    with ThreadPoolExecutor(NCPU) as ex:
        rs = list(ex.map(one, pick))
    sel = [{"kind": "walk", "lines": [list(l.encode()) for l in x["lines"]], "qs": x["ops"], "got": g} for x, (rc, g, err) in zip(pick, rs)]
    for x, (rc, g, err) in zip(pick, rs):
        if rc: c.violation("the table debugger died (rc=%d) on %s" % (rc, x["name"]), {"kind": x["kind"], "source": x["lines"], "input": x["ops"], "stderr": err[-600:]})
    for k, e in conform.conform(c, "TableText", sel):
        x, g = pick[k], rs[k][1]
        j = next((j for j in range(min(len(e), len(g))) if e[j] != g[j]), min(len(e), len(g)))
        c.violation("%s table %s walked by %s: specification %s, code %s" % (x["kind"], x["name"], json.dumps(x["ops"])[:300], json.dumps(e[j:j + 1])[:200], json.dumps(g[j:j + 1])[:200]),
                    {"kind": x["kind"], "source": x["lines"], "input": x["ops"], "at": j, "expected": e, "got": g})
    c.count("walked", sum(len(x["ops"]) for x in pick))

def rand_query(rng, kind, al, keys):
    if kind == "from":
        s = []
        for _ in range(rng.randint(1, 4)):
            k = list(rng.choice(keys)[0]) if rng.random() < .8 else [rng.choice(al)]
            m = rng.random()
            if m < .25: k = k[:-1]
            elif m < .4: k = [(t ^ 0x20) if rng.random() < .5 else t for t in k]
            elif m < .5: k.append(rng.randrange(256))
            s += k
        return s[:12]
    s = []
    for _ in range(rng.randint(1, 3)):
        k = [list(c) for c in rng.choice(keys)] if rng.random() < .85 else [[1, rng.choice(al)]]
        m = rng.random()
        if m < .25: k = k[:-1]
        elif m < .4: k = [[c[0]] + [(t ^ 0x20) if rng.random() < .5 else t for t in c[1:]] for c in k]
        elif m < .5: k[-1].append(rng.choice(al))
        elif m < .6: k[0] = k[0][:-1] if len(k[0]) > 2 else k[0]
        elif m < .65: k[0][0] = rng.choice([1, 2, 3])
        s += k
    return [c for c in s if c][:6]

def tokens_of(key):
    key = key.lstrip("!")
    return [[t if t == "*" else int(t, 16) for t in re.findall(r"\*|[0-9A-Fa-f]{2}", c)] for c in key.split(",")]

def shipped(c, b, rng, tabs):
    """buckets of the shipped sources: every line that could matter for the queried keys"""
    cases = []
    skip = {"BSDCONV-LOG", "BSDCONV-OUTPUT"}
    for kind in ("from", "inter", "to"):
        d = os.path.join(b.dir, "modules", kind)
        for f in sorted(os.listdir(d)):
            if not f.endswith(".txt"): continue
            n = f[:-4]
            if n in skip or not os.path.exists(os.path.join(tabs.mod, kind, n)): continue
            L = [l.rstrip("\n") for l in open(os.path.join(d, f), encoding="utf-8", errors="replace")]
            # (a few sources have a "Source:" line without "#": not an entry)
            L = [l for l in L if re.match(r"^!?[0-9A-Fa-f*,]+[\t ]+\??[0-9A-Fa-f,]*([\t #\r\n]|$)", l)]
            if any(re.split(r"[\t ]+", l + "\t")[1].startswith("?") for l in L): continue   # code decides
            byfirst, loose = {}, []
            for l in L:
                k = re.split(r"[\t ]", l)[0]
                t = tokens_of(k)
                u = t[0][0] if kind == "from" else tuple(t[0])
                if l.startswith("!") or "*" in t[0]: loose.append(l)
                else: byfirst.setdefault(u, []).append(l)
            firsts = sorted(byfirst)
            pick = firsts if thorough() and len(firsts) < 400 else rng.sample(firsts, min(len(firsts), 60 if thorough() else 3))
            for u in pick:
                ls = byfirst[u]
                if len(ls) > 60:
                    # keep what shares the first two bytes with a chosen key
                    a = rng.choice(ls)
                    p2 = a[:4]
                    ls = [l for l in ls if l.startswith(p2) or len(tokens_of(re.split(r"[\t ]", l)[0])[0]) == 1]
                    if len(ls) > 200: continue
                qs = []
                for l in (ls if len(ls) < 25 else rng.sample(ls, 25)):
                    t = tokens_of(re.split(r"[\t ]", l)[0])
                    if any("*" in x for x in t): continue
                    qs.append(t[0] if kind == "from" else t)
                if len(loose) < 80 and qs:
                    # in source order
                    order = {id(l): i for i, l in enumerate(L)}
                    sel = [l for l in L if l in set(ls) | set(loose)] if len(L) < 3000 else ls + loose
                    cases.append({"kind": kind, "name": n, "lines": sel, "qs": qs})
    return cases

def run(c):
    b = Build()
    tabs = engine.Tables(b)
    so = os.path.join(tabs.dir, "zzcb.so")
    p = subprocess.run(["gcc", "-g", "-O1", "-w", "-D_GNU_SOURCE", "-DIN_BSDCONV", "-D_BSDCONV_INTERNAL", "-fPIC", "-shared", "-I", os.path.join(b.dir, "src"), os.path.join(VERIF, "harness", "zzcb.c"), "-o", so], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode: raise CheckError(p.stdout.decode())
    cases = []
    for i in range(4000 if thorough() else 1200):
        kind = ["from", "inter", "to"][i % 3]
        cb = c.rng.random() < .35
        lines, al, keys = rand_source(c.rng, kind, cb)
        if not keys: continue
        n = "ZZT%d" % i
        # the last line may end without a line end, with its output or without one
        end = "\n"
        if c.rng.random() < .15:
            end = ""
            if c.rng.random() < .5:
                lines[-1] = c.rng.choice([c.rng.choice(al), 0x30]).__format__("02X") if kind == "from" else "01%02X" % c.rng.choice(al)
                lines[-1] += c.rng.choice(["", "\t", " \t "])
        tabs.add(kind, n, lines, end)
        if cb: os.symlink(so, os.path.join(tabs.mod, kind, n + ".so"))
        cases.append({"kind": kind, "name": n, "lines": lines, "qs": [q for q in (rand_query(c.rng, kind, al, keys) for _ in range(24)) if q]})
        if i % 2: cases[-1]["ops"] = walk_ops(c.rng, kind, al, keys)
    for (kind, n, lines, end), rc, out in tabs.compile():
        c.violation("the table compiler failed (rc=%d) on a well-formed source: %s" % (rc, out[-600:]), {"kind": kind, "lines": lines})
        cases = [x for x in cases if x["name"] != n]
    c.count("synthetic_tables", len(cases))
    ship = shipped(c, b, c.rng, tabs)
    c.count("shipped_buckets", len(ship))
    cases += ship
    lists = [list(range(k, len(cases), NCPU)) for k in range(NCPU)]
    scripts = []
    for l in lists:
        L = []
        for i in l:
            x = cases[i]
            k = x["kind"]
            conv = {"from": "%s:PASS", "inter": "BSDCONV:%s:PASS", "to": "BSDCONV:%s"}[k] % x["name"]
            L.append("create 0 " + h(conv))
            for q in x["qs"]:
                data = bytes(q) if k == "from" else ",".join("".join("%02x" % t for t in cell) for cell in q).encode()
                L += ["creset 0 -", "init 0", "cellout 0 1 %s" % hx(data)]
            L.append("destroy 0")
        scripts.append(L)
    ok = []
    b.driver()
    with ThreadPoolExecutor(NCPU) as ex:
        rs = list(ex.map(lambda L: b.run(L, 400, env=tabs.env()), scripts))
    for l, (res, crash), L in zip(lists, rs, scripts):
        if crash:
            c.violation("the library died (rc=%s) on %s\n%s" % (crash["rc"], crash["op"][:300], crash["stderr"][:800]), {"script": L[max(0, crash["line"] - 6):crash["line"] + 1]})
        it = iter([r for r in res if "cells" in r or "ok" in r])
        try:
            for i in l:
                x = cases[i]
                while True:
                    r = next(it)
                    if "ok" in r and "ctr" not in r: break      # create
                if not r["ok"]:
                    c.violation("codec %s could not be loaded" % x["name"], {"lines": x["lines"], "answer": r}); continue
                got = []
                for q in x["qs"]:
                    while True:
                        r = next(it)
                        if "cells" in r: break
                    cells = [list(bytes.fromhex(y)) for y in r["cells"] if y]
                    got.append({"out": cells, "err": r["ctr"]["IERR" if x["kind"] == "from" else "OERR"]})
                r = next(it)   # destroy
                if x["kind"] == "to": got = [{"out": sum(g["out"], []), "err": g["err"]} for g in got]
                x["got"] = got
                ok.append(i)
        except StopIteration:
            pass
    sel = []
    for i in ok:
        x = cases[i]
        sel.append({"kind": x["kind"], "lines": [list(l.encode()) for l in x["lines"]], "qs": x["qs"], "got": x["got"]})
    for k, e in conform.conform(c, "TableText", sel):
        x = cases[ok[k]]
        j = next(j for j in range(len(e)) if e[j] != x["got"][j])
        c.violation("%s table %s, input %s: specification %s, code %s" % (x["kind"], x["name"], json.dumps(x["qs"][j]), json.dumps(e[j])[:300], json.dumps(x["got"][j])[:300]),
                    {"kind": x["kind"], "codec": x["name"], "source": x["lines"], "input": x["qs"][j], "expected": e[j], "got": x["got"][j]})
    walks(c, b, tabs, cases)
    c.count("queries", sum(len(x["qs"]) for x in sel))
    for i in c.rng.sample(range(len(sel)), min(5, len(sel))):
        x = cases[ok[i]]
        c.sample({"kind": x["kind"], "codec": x["name"], "lines": len(x["lines"]), "first": x["lines"][:2], "query": x["qs"][0], "got": x["got"][0]})
if __name__ == "__main__":
    main(run, "C11")
