"""bsdconv_init makes any used converter equal to a new one."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import corpus, history, pipes

def run(c):
    b = Build()
    pipes.ST.setup(b)
    recs = []
    cases = list(corpus.from_cases(b)) + list(corpus.inter_cases(b)) + list(corpus.to_cases(b))
    n = 40 if thorough() else 10
    def inp(kind, conv, words):
        if kind == "from": return corpus.from_input(c.rng, words)
        if kind == "pipe": return pipes.pipe_input(c.rng, corpus, conv)
        return corpus.cell_text(corpus.cell_input(c.rng, words))
    cases += [(pipes.random_pipe(c.rng, stages=c.rng.choice([1, 1, 2])), None, "pipe") for _ in range(2500 if thorough() else 500)]
    for conv, words, kind in cases:
        r = history.Rec()
        r.label(conv)
        xs = [inp(kind, conv, words) for _ in range(n)]
        # what is done with the rest of an input whose beginning came before
        head = {}
        for i in range(n):
            if c.rng.random() < .4:
                at = [j + 1 for j, z in enumerate(xs[i]) if z == 44] if kind in ("inter", "to") else range(1, len(xs[i]))
                if at: k = c.rng.choice(at); head[i] = xs[i][:k]; xs[i] = xs[i][k:]
        # a new instance per input: the reference
        for x in xs:
            r.create(0, conv)
            r.run(0, [x])
            r.destroy(0)
        r.create(1, conv)
        for j, x in enumerate(xs):
            # a history: pieces of other inputs, abandoned anywhere, output collected or not
            for _ in range(c.rng.randint(1, 3)):
                y = inp(kind, conv, words)
                y = y[:c.rng.randint(0, len(y))] if c.rng.random() < .7 else y
                r.init(1)
                ch = corpus.split(c.rng, y)
                endit = c.rng.random() < .35
                for i, d in enumerate(ch):
                    last = i == len(ch) - 1
                    m = c.rng.choice("AAAHPQNF")
                    r.call(1, d, last and endit, m, c.rng.choice([1, 3, 40]), own=c.rng.randint(0, 1))
            if j in head:
                r.init(1)
                for d in corpus.split(c.rng, head[j]): r.call(1, d, False, c.rng.choice("AAHN"), own=c.rng.randint(0, 1))
            r.run(1, corpus.split(c.rng, x) if c.rng.random() < .5 else [x], c.rng)
        r.destroy(1)
        r.end_group()
        recs.append(r)
        c.count("conversions")
        c.count("histories", n)
    gs = history.check_histories(c, b, recs)
    for g in gs[:6]:
        c.sample(g[-12:])
main(run, "C03")
