"""Scoring and learning scores: SCORE, ZH-BONUS* (Codecs.tla), and histories of SCORE-TRAIN and
SCORE#WITH=TRAINED over score files (Score.tla)."""
import sys, os, json, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import corpus, conform, kit as K, filters
from kit import FROM as F, TO as T, INTER as I, phase

READ = lambda: [F["ASCII"], F["00"], K.utf8(), F["BYTE"]]
def run(c):
    r = c.rng
    m = tlc("MCScore", "SPECIFICATION Spec\nCONSTANTS\n Chr = {65, 66, 20013}\n MaxText = %d\n MaxTexts = %d\nINVARIANTS Scores Once InOrder Cuts Adds Grows\nCHECK_DEADLOCK FALSE\n" % ((4, 4) if thorough() else (3, 3)), workers=NCPU, timeout=3000)
    if not m.ok: raise CheckError("MCScore: " + m.out[-2000:])
    c.model("MCScore", m, "scores count, lists take down once, cutting changes nothing: all histories of %s texts of up to %s characters over three" % ((4, 4) if thorough() else (3, 3)))
    b = Build()
    scorers(c, r, b)
    learning(c, r, b)

def scorers(c, r, b):
    S = json.load(open(os.path.join(SPEC, "data", "scorers.json")))
    tr = K.Tries()
    BON = {n: K.K(n, "BONUS", t=tr.add(n, K.table("inter", n))) for n in ("ZH-BONUS", "ZH-BONUS-PHRASE")}
    keys = {n: [k for k, _ in K.table("inter", n)] for n in BON}
    env = {"TRIES": tr.write(scratch("vfk-"))}
    def text(k): #a key of a table in UTF-8
        out, cell = "", []
        for d in k + [256]:
            if d == 256: out += chr(int.from_bytes(bytes(cell[1:]), "big")); cell = []
            else: cell.append(d)
        return out
    words = [text(k) for q in keys.values() for k in q]
    edges = sorted({x for q in S.values() for a, z, _ in q for x in (a - 1, a, (a + z) // 2, z, z + 1) if 0 <= x < 0xd800 or 0xe000 <= x < 0x110000})
    def score():
        n = r.choice([None, "CJK", "LATIN1", "cjk", "Latin1"])
        return K.score(S[(n or "CJK").upper()], n, r.choice([None, None, "Mine", "SCORE", "IERR"]))
    def data():
        s = ""
        for _ in range(r.choice([0, 1, 2, 4, 8, 16])):
            q = r.random()
            if q < .35: w = r.choice(words); s += w if r.random() < .7 else w[:r.randint(0, len(w))]
            elif q < .6: s += chr(r.choice(edges))
            elif q < .9: s += r.choice("aZ\u6e2c\u8a66\u4e00\u3042\xe9\u0411\n")
            else: s += chr(r.choice([0x20000, 0x2a6d6, 0x10ffff, 0xe000, 0x81, 0x8d, 0x100]))
        d = s.encode("utf-8")
        return d if r.random() < .8 else d[:len(d) // 2] + r.choice([b"\xff", b"\x80", b"\0"]) + d[len(d) // 2:]
    cases = []
    def add(ps, d): cases.append(K.case(ps, d, sorted({"IERR", "OERR", "SCORE"} | {n for _, ks in ps for k in ks for n in k["rec"].get("c", [])})))
    for j in range(0, len(edges), 20):
        for n in S:
            for x in edges[j:j + 20]: add([phase(1, *READ()), phase(2, K.score(S[n], n), K.count("REST")), phase(3, K.CELLS_OUT)], chr(x).encode())
    for w in words: add([phase(1, *READ()), phase(2, BON["ZH-BONUS"]), phase(2, BON["ZH-BONUS-PHRASE"]), phase(3, K.CELLS_OUT)], w.encode())
    for _ in range(3000 if thorough() else 350):
        mid = []
        for _ in range(r.choice([1, 1, 2, 3])):
            ks = [r.choice([score(), score(), BON["ZH-BONUS"], BON["ZH-BONUS-PHRASE"]])]
            while r.random() < .4: ks.append(r.choice([score(), K.count("REST"), BON["ZH-BONUS"], BON["ZH-BONUS-PHRASE"], K.replace([b"\x01a"], [b"\x01b"])]))
            mid.append(phase(2, *ks))
        for _ in range(5): add([phase(1, *READ())] + mid + [phase(3, K.CELLS_OUT)], data())
    K.run(c, b, cases, env)
    c.count("scored", len(cases))

def sparse(p):
    with open(p, "rb") as fp: d = fp.read()
    return [[i, x] for i, x in enumerate(d) if x]

def learning(c, r, b):
    rd = [{"t": 1, "ks": [k["rec"] for k in READ()]}]
    RD = ",".join(k["text"] for k in READ())
    root = scratch("vfs-")
    pal = ["a", "b", "~", "\n", "\u6e2c", "\u8a66", "\x00", "\xff", "\u0100", "\U00020000", "\U0010ffff", "\ud7ff", "\x01"]
    def text(q):
        p = q.sample(pal, q.randint(1, 5))
        d = "".join(q.choice(p) for _ in range(q.choice([0, 1, 1, 2, 3, 5, 9, 20]))).encode()
        return d if q.random() < .8 else d + q.choice([b"\xff", b"\xe4\xb8", b"\x80a"])
    def one(i):
        q = rs[i]
        d = os.path.join(root, str(i)); os.makedirs(d)
        path = {n: os.path.join(d, n) for n in ("env1", "env2", "own1", "own2")}
        path["home"] = os.path.join(d, ".bsdconv.score")
        files, ops, vs = [], [], []
        for n in sorted(path):
            if n.startswith("own") or q.random() < .4:
                s = sorted({ord(x): q.choice([1, 2, 3, 3, 4, 200, 255]) for x in q.sample(pal, q.choice([0, 1, 3]))}.items())
                with open(path[n], "wb") as fp:
                    for v, x in s: fp.seek(v); fp.write(bytes([x]))
                    if q.random() < .3: fp.seek(0, 2); fp.write(b"\0" * q.choice([1, 300]))
                files.append({"n": n, "s": [list(x) for x in s]})
        for _ in range(q.choice([1, 2, 3, 4])): #processes, one after another
            file = q.choice(["env1", "env1", "env2", "home"])
            L, own = [], []
            def do(l, o=None): L.append(l); own.append(o)
            for _ in range(q.choice([1, 1, 2])): #conversions, one after another
                o = {"k": q.choice(["train", "train", "score"]), "file": file, "own": q.choice(["", "", "own1", "own2"]), "list": int(q.random() < .6), "ps": rd, "texts": []}
                v = {"outs": [], "new": []}
                nm = "IERR"
                if o["k"] == "train": conv = RD + ":SCORE-TRAIN:PASS"
                else:
                    nm, o["list"] = q.choice(["SCORE", "IT"]), 0
                    a = ["WITH=" + q.choice(["TRAINED", "trained"])] + (["AS=" + q.choice(["IT", "it"])] if nm == "IT" else [])
                    conv = RD + ":SCORE#" + "&".join(q.sample(a, len(a))) + ":PASS"
                do("create 0 " + h(conv), "create")
                if o["own"]: do("attach 0 0 %s r+" % path[o["own"]])
                lp = os.path.join(d, "list")
                if o["list"]: do("attach 0 3 %s w" % lp)
                for _ in range(q.choice([1, 1, 2, 3])):
                    t = text(q); o["texts"].append(list(t))
                    do("creset 0 -"); do("init 0")
                    ps = corpus.split(q, t) if len(t) > 1 and q.random() < .5 else [t]
                    for j, x in enumerate(ps): do("cellout 0 %d %s" % (j == len(ps) - 1, hx(x)), ("out", v, j == 0, nm))
                do("destroy 0")
                if o["list"]: do("slurp " + h(lp), ("list", v))
                ops.append(o); vs.append(v)
            e = b.env(HOME=d)
            if file != "home": e["BSDCONV_SCORE"] = path[file]
            res, crash = b.run(L, cwd=d, env=e)
            if crash: return "the library died (rc=%s) on %s\n%s" % (crash["rc"], crash["op"], crash["stderr"][:600]), L
            for l, o, x in zip(L, own, res):
                if o == "create" and not x["ok"]: return "not accepted: " + bytes.fromhex(l.split()[2]).decode(), L
                if not o or o == "create": continue
                v = o[1]
                if o[0] == "list": v["new"] = list(bytes.fromhex(x["data"])); continue
                if o[2]: v["outs"].append({"out": [], "n": 0})
                w = v["outs"][-1]
                w["out"] += list(bytes.fromhex("".join(y for y in x["cells"] if y)))
                w["n"] = x["ctr"].get(o[3], 0) if o[3] != "IERR" else 0
        got = [{"n": n, "s": sparse(p)} for n, p in sorted(path.items()) if os.path.exists(p)]
        return {"files": files, "ops": ops, "all": sorted(path), "got": {"vs": vs, "files": got, "there": [int(os.path.exists(path[n])) for n in sorted(path)]}}, None
    N = 1500 if thorough() else 250
    rs = [random.Random(r.random()) for _ in range(N)]
    b.driver()
    with ThreadPoolExecutor(NCPU) as ex: out = list(ex.map(one, range(N)))
    for k, L in out:
        if L: c.violation("learning scores: " + k, {"script": L})
    cases = [k for k, L in out if not L]
    for j, e in conform.conform(c, "Score", cases):
        k = cases[j]; g = k["got"]
        i = next((i for i in range(len(k["ops"])) if e["vs"][i] != g["vs"][i]), None)
        what = "files: specification %s %s, code %s %s" % (e["files"], e["there"], g["files"], g["there"]) if i is None else \
               "conversion %d (%s): specification %s, code %s" % (i + 1, k["ops"][i]["k"], e["vs"][i], g["vs"][i])
        c.violation("learning scores: " + what[:1500], {"case": {x: k[x] for x in ("files", "ops")}, "expected": e, "got": g})
    # no place for a file: said so
    res, crash = b.run(["create 0 " + h(RD + ":SCORE-TRAIN:PASS"), "create 1 " + h(RD + ":SCORE#WITH=TRAINED:PASS"), "init 1", "cellout 1 1 " + hx(b"ab")], env=b.env(BSDCONV_SCORE=os.path.join(root, "none", "x")))
    if crash: c.violation("the library died (rc=%s) on %s\n%s" % (crash["rc"], crash["op"], crash["stderr"][:600]), {"op": crash["op"]})
    elif res[0]["ok"] or not res[1]["ok"] or [x for x in res[3]["cells"] if x] != ["0161", "0162"] or res[3]["ctr"].get("SCORE", 0):
        c.violation("without a place for the score file: %s" % res, {"got": res})
    c.count("histories", len(cases)); c.count("texts", sum(len(o["texts"]) for k in cases for o in k["ops"]))
if __name__ == "__main__":
    main(run, "C23")
