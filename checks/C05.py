"""A|B is B after A, whether written as one conversion or chained by passing packets."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import corpus, history, pipes

def run(c):
    b = Build()
    pipes.ST.setup(b)
    n = 30 if thorough() else 8
    N = 2500 if thorough() else 500
    pairs = []
    for k in range(N):
        A = pipes.random_pipe(c.rng, stages=1)
        f = c.rng.choice(["UTF-8,BYTE", "UTF-16LE,BYTE", "BIG5,UTF-8", "GB18030,BYTE", "BSDCONV", "UTF-8,3F", "ASCII,BYTE", "ESCAPE,UTF-8,BYTE", "NCR,UTF-8,BYTE", "JIS,BYTE", "IBM-930"])
        B = ":".join([f] + [c.rng.choice(pipes.INTERS) for _ in range(c.rng.choice([0, 1, 2]))] + [c.rng.choice(pipes.TOS)])
        pairs.append((A, B))
    pairs += [("UTF-8:UTF-16LE", "UTF-16LE:UTF-8"), ("UTF-8:UTF-8", "UTF-8:BIG5,3F"), ("BIG5,BYTE:UTF-8,BYTE", "UTF-8,BYTE:BIG5,BYTE")]
    # phase 1: what A and A|B yield
    lines, meta = [], []
    todo = []
    for A, B in pairs:
        xs = [pipes.pipe_input(c.rng, corpus, A) for _ in range(n)]
        todo.append((A, B, xs))
    def outs(item):
        A, B, xs = item
        ls = ["create 0 " + h(A)]
        for x in xs:
            ls += ["init 0", "feed 0 1 A 0 " + hx(x)]
        return b.run(ls + ["destroy 0"])
    b.driver()
    with ThreadPoolExecutor(NCPU) as ex:
        mids = list(ex.map(outs, todo))
    recs = []
    for (A, B, xs), (res, crash) in zip(todo, mids):
        if crash:
            c.violation("%s: the library died executing %s\n%s" % (A, crash["op"], crash["stderr"][:800]), crash)
            continue
        if not res[0]["ok"]:
            raise CheckError("cannot create " + A)
        ys = [bytes.fromhex(res[2 + 2 * i]["out"]) for i in range(len(xs))]
        r = history.Rec()
        AB = A + "|" + B
        r.label(AB)
        r.create(0, A); r.create(1, B); r.create(2, AB)
        r.create(3, A); r.create(4, B)
        for x, y in zip(xs, ys):
            r.run(0, [x])
            r.run(1, [y])
            r.run(2, corpus.split(c.rng, x), c.rng)
            r.raw({"e": "compose", "ab": AB, "a": A, "b": B, "x": x.hex()})
            # chained instances, streaming
            for hh in (3, 4): r._op("creset %d -" % hh)
            r._op("init 3", lambda q, AB=AB: {"e": "init2", "h": 9, "c": AB})
            r._op("init 4")
            ch = corpus.split(c.rng, x)
            for i, d in enumerate(ch):
                fl = int(i == len(ch) - 1)
                r._op("pass 3 %d %s 4" % (fl, hx(d)),
                      lambda q, d=d, fl=fl: {"e": "overrun", "r": q} if q["told"] else {"e": "pass", "h": 9, "d": d.hex(), "f": fl, "m": "A", "cap": 0, "o": q["out"], "n": q["len"], "ctr": ""})
        for hh in range(5): r.destroy(hh)
        r.end_group()
        recs.append(r)
        c.count("pairs")
    gs = history.check_histories(c, b, recs)
    for g in gs[:4]:
        c.sample(g[2:20])
main(run, "C05")
