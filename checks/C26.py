"""Every call returns, within its own memory, and gives what depends on nothing but what the instance was given:
Progress.tla over histories done in memories that are filled otherwise."""
import sys, os, json, zlib, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import conform, corpus, pipes

def run(c):
    b = Build()
    rng = c.rng
    r = tlc("MCProgress", "SPECIFICATION Spec\nCONSTANTS Phases = 3 Codecs = 2 Most = %d MaxIn = %d\nINVARIANTS TypeOK Nothing Bounded\nPROPERTY Returns\nCHECK_DEADLOCK FALSE\n" % ((2, 3) if thorough() else (1, 3)), workers=NCPU)
    if not r.ok: raise CheckError("MCProgress: " + r.out[-2000:])
    c.model("MCProgress", r, "any row of phases that look ahead, go back and try others comes to an end, and keeps nothing once flushed")
    m = b.races("memory")
    if m is None: c.notes.append("no build that knows bytes nobody wrote: fills only")
    pipes.ST.setup(b)
    cases = list(corpus.from_cases(b)) + list(corpus.inter_cases(b)) + list(corpus.to_cases(b))
    cases += [(pipes.random_pipe(rng), None, "pipe") for _ in range(3000 if thorough() else 500)]
    def cells():
        """anything at all that can be written down as cells"""
        out = []
        for _ in range(rng.randint(1, 12)):
            n = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 9, 40, 300])
            out.append(bytes([rng.choice([0, 1, 1, 1, 2, 3, 4, 0x1B, rng.randrange(256)])][:n]) + bytes(rng.choice([rng.randrange(256), 0, 0x30, 0x41, 0xFF]) for _ in range(n - 1)))
        out = [z.hex() for z in out]
        return corpus.cell_text(out)
    def inp(kind, conv, words):
        if kind == "from": x = corpus.from_input(rng, words)
        elif kind == "pipe": x = pipes.pipe_input(rng, corpus, conv)
        else: x = corpus.cell_text(corpus.cell_input(rng, words)) if rng.random() < .6 else cells()
        k = rng.random()
        if k < .1: x = bytes(rng.randrange(256) for _ in range(rng.choice([1, 3, 20, 200])))
        elif k < .2 and x:
            x = bytearray(x)
            for _ in range(rng.randint(1, 3)): x[rng.randrange(len(x))] = rng.randrange(256)
            x = bytes(x)
        return x
    scripts, what = [], []
    n = 80 if thorough() else 20
    for cv, w, k in cases:
        L, O = ["create 0 " + h(cv)], ["create"]
        def op(l, o): L.append(l); O.append(o)
        for _ in range(n):
            op("init 0", "init"); op("held 0", "held")
            for _ in range(rng.choice([1, 1, 1, 2])):
                ch = corpus.split(rng, inp(k, cv, w))
                drop = rng.random() < .15
                for i, d in enumerate(ch):
                    last = i == len(ch) - 1 and not drop
                    if rng.random() < .12:       # a list of pieces at once, empty ones among them
                        at = sorted(rng.randrange(len(d) + 1) for _ in range(rng.choice([1, 2, 5])))
                        op("cells 0 %d A 0 %s" % (last, ".".join(hx(d[x:y]) if x < y else "" for x, y in zip([0] + at, at + [len(d)]))), "call")
                        continue
                    op("feed 0 %d %s %d %s %d" % (last, *rng.choice([("A", 0), ("A", 0), ("A", 4), ("P", 7), ("P", 300), ("Q", 0), ("F", 0), ("N", 0), ("H", 0)]), hx(d) or "_", rng.randint(0, 1)), "call")
                # what did not find room
                op("feed 0 0 A 0 -", "call")
                if not drop: break      # (flushed: the next one starts with init)
        op("destroy 0", "destroy")
        scripts.append(L); what.append((cv, O))
    base = dict(b.env())
    homes = []
    def env(bb, k, fill):
        e = bb.env(HOME=homes[k])
        if fill is not None: e["ASAN_OPTIONS"] += ":max_malloc_fill_size=1000000:malloc_fill_byte=%d" % fill
        return e
    answers = []
    for bb, fill in [(b, 0), (b, 0xA5)] + ([(m, None)] if m else []):
        homes = [scratch("vfh-") for _ in scripts]
        answers.append(bb.run_many(scripts, 200, envs=[env(bb, k, fill) for k in range(len(scripts))]))
        for d in homes: shutil.rmtree(d, ignore_errors=True)
    recs, dead = [], {}
    for k, (L, (cv, O)) in enumerate(zip(scripts, what)):
        ops = []
        for i, o in enumerate(O):
            a = []
            for mem in answers:
                res, crash = mem[k]
                x = res[i] if i < len(res) else None
                if crash and i >= len(res): dead.setdefault(k, crash)
                a.append("" if x is None else "-" if o in ("create", "destroy") else json.dumps(x, sort_keys=True))
            o2 = {"op": o, "ans": [z if len(z) < 60 else "%d:%x" % (len(z), zlib.crc32(z.encode())) for z in a], "kept": 0}
            x = answers[0][k][0][i] if i < len(answers[0][k][0]) else {}
            if o == "held": o2["kept"] = sum(map(abs, x.get("held", []))) if "noinst" not in x else 0; o2["ans"] = ["-" if z else "" for z in a]
            ops.append(o2)
            if "" in a: break
        recs.append({"conv": cv, "ops": ops, "got": 0})
        c.count("histories"); c.count("calls", O.count("call"))
    for i, e in conform.conform(c, "Progress", recs):
        cr = dead.get(i)
        why = ("it died (rc=%s)\n%s" % (cr["rc"], cr["stderr"][:1200]) if cr and recs[i]["ops"][e - 1]["ans"].count("") else "answers %s kept %d" % ([mem[i][0][e - 1] if e - 1 < len(mem[i][0]) else None for mem in answers], recs[i]["ops"][e - 1]["kept"]))
        c.violation("%s: %s: %s" % (recs[i]["conv"], scripts[i][e - 1][:200], why[:2500]), {"conv": recs[i]["conv"], "script": scripts[i][:e]})
    for k in range(0, len(recs), max(1, len(recs) // 6)): c.sample({"conv": recs[k]["conv"], "ops": recs[k]["ops"][:8]})
main(run, "C26")
