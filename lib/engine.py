"""Engine.tla <-> real engine: random small conversions made of mapping tables,
explored exhaustively by TLC, compiled by the real table compiler and replayed."""
import itertools, os, json, zlib
from vlib import *

BYTES = ["61", "62", "41"]
CELLS = ["0161", "0162", "0141"]

def q(s): return '"%s"' % s
def seq(l): return "<<" + ", ".join(l) + ">>"

def rand_table(rng, kind, nlines=None, ci=True, wild=True):
    units = BYTES if kind == "from" else CELLS
    outs = CELLS + ["0163"] if kind != "to" else ["61", "62", "6364", "41"]
    t = []
    for _ in range(nlines or rng.choice([1, 1, 2, 2, 3, 3, 4, 5])):
        n = rng.choice([1, 1, 2, 2, 2, 3, 3])
        key = [("*" if wild and rng.random() < .12 else rng.choice(units)) for _ in range(n)]
        if t and rng.random() < .5:       # extend or shorten an existing key
            base = rng.choice(t)["key"]
            key = (base + key)[:3] if rng.random() < .6 else base[:max(1, len(base) - 1)]
        out = [rng.choice(outs) for _ in range(rng.choice([1, 1, 1, 2, 0]))]
        t.append({"key": key, "ci": ci and rng.random() < .2, "out": out})
    return t

def rand_conv(rng, ninter=None, **kw):
    phs = [{"type": "from", "codecs": [rand_table(rng, "from", **kw) for _ in range(rng.choice([1, 1, 2, 2, 3]))]}]
    for _ in range(rng.choice([0, 0, 1, 1, 2]) if ninter is None else ninter):
        phs.append({"type": "inter", "codecs": [rand_table(rng, "inter", **kw) for _ in range(rng.choice([1, 1, 2]))]})
    tos = [rand_table(rng, "to", **kw) for _ in range(rng.choice([1, 1, 2]))]
    if rng.random() < .5:  # let most cells through
        tos.append([{"key": [c], "ci": False, "out": [c[2:]]} for c in CELLS + ["0163"]])
    phs.append({"type": "to", "codecs": tos})
    return phs

def tla_table(t):
    return seq("[key |-> %s, ci |-> %s, out |-> %s]" % (seq(map(q, l["key"])), "TRUE" if l["ci"] else "FALSE", seq(map(q, l["out"]))) for l in t)
def tla_conv(i, phs):
    return "[id |-> %d, phases |-> %s]" % (i, seq("[type |-> %s, codecs |-> %s]" % (q(p["type"]), seq(tla_table(t) for t in p["codecs"])) for p in phs))

MC = """---------------------------- MODULE MCEngine ----------------------------
EXTENDS Engine, Json
MCUnits == {"61", "62", "41", "0161", "0162", "0141", "0163"}
MCFold(u) == CASE u = "61" -> "41" [] u = "41" -> "61" [] u = "62" -> "42" [] u = "0161" -> "0141"
               [] u = "0141" -> "0161" [] u = "0162" -> "0142" [] u = "0163" -> "0143" [] OTHER -> u
MCConfigs == %s
In == {"61", "62", "41"}
MCInputs(c) == UNION {[1..n -> In] : n \\in 0..%d}
%s
==========================================================================
"""
CFG = """SPECIFICATION Spec
CONSTANTS
  Units <- MCUnits
  Fold <- MCFold
  Wild = "*"
  Configs <- MCConfigs
  Inputs <- MCInputs
INVARIANTS Correct Monotone ErrBound NoStall
CHECK_DEADLOCK FALSE
"""
PRINT = """ASSUME \\A c \\in MCConfigs : \\A s \\in MCInputs(c) :
  PrintT(<<"P", ToJson([id |-> c.id, i |-> s, r |-> Ref(c, s)])>>)"""

def predict(convs, maxlen, explore=True, workers=NCPU, liveness=False, timeout=800):
    """TLC: explore the operational engine on all inputs; return (TLCResult, {(id, input): ref})"""
    mod = MC % ("{" + ",\n ".join(tla_conv(i, p) for i, p in enumerate(convs)) + "}", maxlen, PRINT)
    cfg = CFG if explore else CFG.replace("SPECIFICATION Spec", "INIT Init\nNEXT NoNext").replace("INVARIANTS Correct Monotone ErrBound NoStall\n", "")
    if not explore:
        mod = mod.replace(PRINT, PRINT + "\nNoNext == FALSE /\\ UNCHANGED vars")
    if liveness:
        cfg += "PROPERTY Terminates\n"
    r = tlc("MCEngine", cfg, files=[("MCEngine.tla", mod)], workers=workers, timeout=timeout, heap="6g")
    pred = {}
    for v in r.printed("P"):
        i = "".join(v["i"]) if v["i"] else ""
        rr = v["r"]
        pred[(v["id"], i)] = ("".join(rr["out"]), rr["ierr"], rr["oerr"])
    return r, pred

def table_text(t):
    L = []
    for l in t:
        key = ",".join(k if k != "*" else "*" for k in l["key"]) if len(l["key"][0]) > 2 or any(len(k) > 2 for k in l["key"]) else "".join(l["key"])
        L.append(("!" if l["ci"] else "") + key + "\t" + ",".join(l["out"]))
    return L

class Tables:
    """a module directory: the shipped one plus compiled synthetic tables"""
    def __init__(self, build):
        self.b = build
        self.dir = scratch("vfm-")
        src = os.path.join(build.path, "share")
        subprocess.run(["cp", "-as", src, self.dir + "/share"], check=True)
        self.mod = os.path.join(self.dir, "share", "bsdconv")
        self.mk = os.path.join(build.path, "bin", "bsdconv-mktable")
        if not os.path.exists(self.mk):
            c = subprocess.run("find %s -name 'bsdconv-mktable*' -type f -perm -u+x" % build.dir, shell=True, stdout=subprocess.PIPE).stdout.decode().split()
            if not c: raise CheckError("bsdconv-mktable not built")
            self.mk = c[0]
        self.todo = []

    def add(self, kind, name, lines, end="\n"):
        self.todo.append((kind, name, lines, end))

    def compile(self):
        def one(a):
            kind, name, lines, end = a
            txt = os.path.join(self.dir, "%s-%s.txt" % (kind, name))
            with open(txt, "w") as fp:
                fp.write("\n".join(lines) + end)
            # (in memory that holds one thing or another: what is compiled does not depend on it)
            e = self.b.env(); e["ASAN_OPTIONS"] += ":max_malloc_fill_size=100000:malloc_fill_byte=%d" % [1, 0, 255, 190][zlib.crc32(name.encode()) % 4]
            p = subprocess.run([self.mk, txt, os.path.join(self.mod, kind, name)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               env=e, cwd=self.dir, timeout=200)
            return (a, p.returncode, p.stdout.decode(errors="replace"))
        with ThreadPoolExecutor(NCPU) as ex:
            rs = list(ex.map(one, self.todo))
        self.todo = []
        return [r for r in rs if r[1] != 0]

    def env(self):
        return self.b.env(BSDCONV_PATH=self.dir)

def name(i, p, k): return "ZZ%dP%dC%d" % (i, p, k)

def install(tabs, convs, render=table_text, base=0):
    strs = []
    for i, phs in enumerate(convs):
        parts = []
        for p, ph in enumerate(phs):
            ns = []
            for k, t in enumerate(ph["codecs"]):
                n = name(i + base, p, k)
                kind = ph["type"]
                lines = []
                for l in t:
                    if kind == "from":
                        key = "".join(l["key"])
                    else:
                        key = ",".join("01*" if x == "*" else x for x in l["key"])
                    out = "".join(l["out"]) if kind == "to" else ",".join(l["out"])
                    lines.append(("!" if l["ci"] else "") + key + "\t" + out)
                tabs.add(kind, n, lines)
                ns.append(n)
            parts.append(",".join(ns))
        strs.append(":".join(parts))
    return strs

def chunkings(n):
    """all ways to cut n units, each also with a separate empty last piece"""
    if n == 0:
        return [[0]]
    r = []
    for bits in range(1 << (n - 1)):
        c, last = [], 0
        for k in range(1, n):
            if bits >> (k - 1) & 1:
                c.append(k - last); last = k
        c.append(n - last)
        r.append(c)
    return r + [c + [0] for c in (r if n <= 3 else r[:1] + r[-1:])]

def replay(check, tabs, convs, strs, pred, lo=0, limit=None, rng=None):
    """replay every predicted behaviour with every chunking; returns number of runs"""
    jobs = []
    byid = {}
    for (i, s), r in pred.items():
        byid.setdefault(i, []).append((s, r))
    def one(i):
        lines, meta = ["create 0 " + h(strs[i])], []
        for s, r in sorted(byid[i]):
            n = len(s) // 2
            cks = chunkings(n)
            if limit and len(cks) > limit:
                rr = random.Random("%d/%d/%s" % (SEED, i, s))
                cks = [cks[0], cks[(1 << (n - 1)) - 1]] + rr.sample(cks, limit - 2)
            for ck in cks:
                lines.append("creset 0 -"); lines.append("init 0")
                st = len(lines)
                p = 0
                for k, c in enumerate(ck):
                    d = s[2 * p:2 * (p + c)]
                    p += c
                    lines.append("feed 0 %d A 0 %s 1" % (k == len(ck) - 1, d if d else "_"))
                meta.append((s, ck, st, len(lines), r))
        lines.append("destroy 0")
        res, crash = tabs.b.run(lines, 400, env=tabs.env())
        return i, lines, meta, res, crash
    tabs.b.driver()
    runs = 0
    bad = []
    with ThreadPoolExecutor(NCPU) as ex:
        for i, lines, meta, res, crash in ex.map(one, sorted(byid)):
            if crash:
                check.violation("the library died (rc=%s) on conversion %s executing %s\n%s" % (crash["rc"], json.dumps(convs[i]), crash["op"], crash["stderr"][:800]),
                                {"tables": convs[i], "op": crash["op"]})
                continue
            if not res[0]["ok"]:
                check.violation("conversion made of tables could not be created: %s" % strs[i], {"tables": convs[i], "answer": res[0]})
                continue
            first = None
            for s, ck, a, z, r in meta:
                out = "".join(x["out"] for x in res[a:z])
                got = (out, res[z - 1]["ierr"], res[z - 1]["oerr"])
                runs += 1
                if got != r and (first is None or len(s) < len(first[0])):
                    first = (s, ck, r, got)
            if first:
                s, ck, r, got = first
                bad.append(i)
                check.violation("tables %s: input %s fed in pieces of %s: specification (output, ierr, oerr) = %s, code %s" %
                                (json.dumps(convs[i]), s, ck, r, got), {"tables": convs[i], "conversion": strs[i], "input": s, "pieces": ck, "expected": r, "got": got})
    return runs
