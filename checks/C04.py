"""Output modes: the same stream, exactly once, in order, never past the buffer."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import corpus, history, pipes

def run(c):
    b = Build()
    pipes.ST.setup(b)
    r0 = tlc("MCConverter", open(os.path.join(SPEC, "MCConverter.cfg")).read(), workers=NCPU)
    if not r0.ok:
        raise CheckError("MCConverter: " + r0.out[-1500:])
    c.model("MCConverter", r0, "abstract life cycle, all delivery interleavings")
    recs = []
    convs = ["UTF-8:UTF-8", "UTF-8:UTF-16LE", "ASCII,BYTE:ASCII,BYTE", "UTF-8:BSDCONV-KEYWORD,UTF-8", "UTF-8:INSERT#AFTER=002C.0141:UTF-8", "UTF-8:PASS|PASS:UTF-8",
             "UTF-8:BSDCONV", "UTF-8:UTF-8|UTF-8:BIG5,3F", "BSDCONV:RAW", "UTF-8:NFKD:UTF-32LE", "GB18030,BYTE:GB18030,BYTE", "UTF-8:ASCII,HTMLENTITY"]
    convs += [pipes.random_pipe(c.rng, stages=c.rng.choice([1, 1, 2])) for _ in range(400 if thorough() else 90)]
    for conv in convs:
        r = history.Rec()
        r.label(conv)
        r.create(0, conv)
        for k in range(60 if thorough() else 14):
            x = pipes.pipe_input(c.rng, corpus, conv)
            r.run(0, [x])
            for _ in range(3):
                r.init(0)
                ch = corpus.split(c.rng, x, True)
                big = 4 * 64 + 16 * len(x)
                style = c.rng.choice(["mixed", "mixed", "keep", "keep", "fixed", "hold"])
                fixed = c.rng.choice("FDAP")
                def drain():
                    u = c.rng.random()
                    if style == "fixed": return (fixed, big if fixed == "P" else c.rng.choice([0, 1, 2, 5]) if fixed == "D" else 0)
                    if style == "hold": return ("H", 0)
                    if u < .25: return ("P", c.rng.choice([0, 1, 2, 3, 4, 5, 7, 11, 64]))
                    if u < .4: return ("Q", 0)
                    if u < .55: return ("H", 0)
                    if style == "mixed" and u < .62: return ("N", 0)
                    if u < .7: return ("F", 0)
                    if u < .8: return ("D", c.rng.choice([0, 0, 1, 2, 3, 7]))
                    return ("A", c.rng.choice([0, 0, 1, 8, 100]))
                for i, d in enumerate(ch):
                    m, cap = drain()
                    if m == "P" and cap == 0: m = "Q"
                    r.call(0, d, i == len(ch) - 1, m, cap, own=c.rng.randint(0, 1))
                    while c.rng.random() < .3:
                        m, cap = drain()
                        if m == "P" and cap == 0: m = "Q"
                        r.call(0, None, 0, m, cap)
                # drain: ask for the size, take some, take the rest
                r.call(0, None, 0, "Q")
                for _ in range(c.rng.randint(0, 4)):
                    r.call(0, None, 0, "P", c.rng.choice([1, 2, 3, 5, 6, 12, 30]))
                    if c.rng.random() < .5:
                        r.call(0, None, 0, "Q")
                if style == "mixed" and c.rng.random() < .3:
                    r.call(0, None, 0, "N")
                    r.call(0, None, 0, "Q")
                last = c.rng.choice("APFD")
                r.call(0, None, 0, last, big if last == "P" else c.rng.choice([0, 1, 2, 5]) if last == "D" else 0)
                r.call(0, None, 0, "Q")
                c.count("deliveries")
        r.destroy(0)
        r.end_group()
        recs.append(r)
    gs = history.check_histories(c, b, recs)
    for g in gs[:4]:
        c.sample(g[2:24])
main(run, "C04")
