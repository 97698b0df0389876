"""Chunking never matters: every shipped codec, histories cut at arbitrary places."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import corpus, history, pipes

def run(c):
    b = Build()
    pipes.ST.setup(b)
    n = 200 if thorough() else 40
    recs = []
    cases = list(corpus.from_cases(b)) + list(corpus.inter_cases(b)) + list(corpus.to_cases(b))
    only = os.environ.get("ONLY")
    for conv, words, kind in cases:
        if only and only not in conv: continue
        r = history.Rec()
        r.label(conv)
        r.create(0, conv)
        for k in range(n):
            if kind == "from":
                x = corpus.from_input(c.rng, words)
            else:
                x = corpus.cell_text(corpus.cell_input(c.rng, words))
            r.run(0, [x])
            for _ in range(2):
                r.run(0, corpus.split(c.rng, x, True), c.rng)
        r.destroy(0)
        r.end_group()
        recs.append(r)
        c.count("codecs")
        c.count("inputs", n)
    for k in range(2500 if thorough() else 500):
        conv = pipes.random_pipe(c.rng, stages=c.rng.choice([1, 1, 1, 2]))
        if only and only not in conv: continue
        r = history.Rec()
        r.label(conv)
        r.create(0, conv)
        for k in range(30 if thorough() else 10):
            x = pipes.pipe_input(c.rng, corpus, conv)
            r.run(0, [x])
            for _ in range(2):
                r.run(0, corpus.split(c.rng, x, True), c.rng)
        r.destroy(0)
        r.end_group()
        recs.append(r)
        c.count("pipelines")
    gs = history.check_histories(c, b, recs)
    for g in gs[:6]:
        c.sample(g[:8])
main(run, "C01")
