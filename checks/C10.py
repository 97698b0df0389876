"""Instances do not influence one another under any interleaving of calls."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import corpus, history, pipes

def run(c):
    b = Build()
    pipes.ST.setup(b)
    recs = []
    allc = [(x, w, k) for x, w, k in list(corpus.from_cases(b)) + list(corpus.inter_cases(b)) + list(corpus.to_cases(b))]
    def inp(kind, conv, words):
        if kind == "from": return corpus.from_input(c.rng, words)
        if kind == "pipe": return pipes.pipe_input(c.rng, corpus, conv)
        return corpus.cell_text(corpus.cell_input(c.rng, words))
    # every codec meets itself (two instances of the same conversion) and random others
    sets = [[x, x] + ([c.rng.choice(allc)] if c.rng.random() < .5 else []) for x in allc]
    for _ in range(2000 if thorough() else 300):
        ps = [(pipes.random_pipe(c.rng, stages=c.rng.choice([1, 1, 2])), None, "pipe") for _ in range(c.rng.randint(2, 4))]
        if c.rng.random() < .5: ps.append(ps[0])
        sets.append(ps)
    for cs in sets:
        r = history.Rec()
        r.label(" / ".join(x[0] for x in cs))
        xs = {}
        for conv, w, kind in cs:
            if conv not in xs:
                xs[conv] = [inp(kind, conv, w) for _ in range(10 if thorough() else 4)]
                r.create(50, conv)
                for x in xs[conv]:
                    r.run(50, [x])
                r.destroy(50)
        live = {}
        queue = [(conv, x) for conv, w, kind in cs for x in xs[conv]]
        c.rng.shuffle(queue)
        used = set()
        while queue or live:
            if queue and len(live) < 5 and (not live or c.rng.random() < .4):
                conv, x = queue.pop()
                free = [i for i in range(8) if i not in live]
                keep = [i for i in free if (i, conv) in used]
                if keep and c.rng.random() < .6:
                    i = keep[0]        # reuse an idle instance of this conversion
                else:
                    new = [i for i in free if not any(u[0] == i for u in used)]
                    if new: i = new[0]
                    else:
                        i = c.rng.choice(free)
                        r.destroy(i)
                        used = {u for u in used if u[0] != i}
                    r.create(i, conv); used.add((i, conv))
                r.init(i)
                live[i] = corpus.split(c.rng, x)
            else:
                i = c.rng.choice(sorted(live))
                d = live[i].pop(0)
                r.call(i, d, not live[i], "A", own=c.rng.randint(0, 1))
                if not live[i]: del live[i]
        for i in sorted({u[0] for u in used}): r.destroy(i)
        r.end_group()
        recs.append(r)
        c.count("interleavings")
    gs = history.check_histories(c, b, recs)
    for g in gs[:3]:
        c.sample(g[-20:])
    together(c, b, allc, inp)

def together(c, b, allc, inp):
    """the same at the same time: each instance is one thread's, all are created beforehand"""
    t = b.races() or b
    c.notes["threads"] = "what two of them touch is reported (-fsanitize=thread)" if t is not b else "-fsanitize=thread does not run here: only what comes out is compared"
    recs = []
    pool = allc[:]
    c.rng.shuffle(pool)
    sets = [pool[j:j + 3] for j in range(0, len(pool), 3)]
    for _ in range(1000 if thorough() else 60):
        sets.append([(pipes.random_pipe(c.rng, stages=c.rng.choice([1, 1, 2])), None, "pipe") for _ in range(c.rng.randint(1, 3))])
    for cs in sets:
        r = history.Rec()
        r.label("in threads: " + " / ".join(x[0] for x in cs))
        xs, own = [], []
        for conv, w, kind in cs:
            q = [inp(kind, conv, w) for _ in range(6 if thorough() else 3)]
            r.create(50, conv)
            for x in q: r.run(50, [x])
            r.destroy(50)
            xs.append(q)
        for j, (conv, w, kind) in enumerate(cs):
            for i in (2 * j, 2 * j + 1): r.create(i, conv)
        def work(i):
            q = xs[i // 2][:]
            seed = c.rng.random()
            def f():
                import random
                g = random.Random(seed)
                g.shuffle(q)
                for x in q:
                    r.init(i)
                    d = corpus.split(g, x)
                    for k, y in enumerate(d): r.call(i, y, k == len(d) - 1, "A", own=g.randint(0, 1))
            return f
        r.par([work(i) for i in range(2 * len(cs))])
        for i in range(2 * len(cs)): r.destroy(i)
        r.end_group()
        recs.append(r)
        c.count("at_the_same_time")
    history.check_histories(c, t, recs)
main(run, "C10")
