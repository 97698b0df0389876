#!/usr/bin/env python3
"""Take down where the tree's tables depart from what Python, glibc and ICU have (spec/data/charsets.z).
Run once; prints how many of each kind there are, to be looked at."""
import sys, os, json, zlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import kit, oracle
def tree(kind, n):
    t = {}
    for k, o in kit.table(kind, n):
        tx = "".join(chr(int.from_bytes(x[1:], "big")) for x in o) if kind == "from" else None
        if kind == "from": t.setdefault(bytes(k), tx)
        else:
            cs, cur = "", []
            for d in k + [256]:
                if d == 256: cs += chr(int.from_bytes(bytes(cur[1:]), "big")); cur = []
                else: cur.append(d)
            t.setdefault(cs, b"".join(o))
    return t
out = {}
for kind, src in (("from", oracle.DEC), ("to", oracle.ENC)):
    for n, f in src.items():
        oracle._memo["dep"] = out
        o, t = f(), tree(kind, n)
        if n == "_GB18030": t.update({k: v for k, v in o.items() if k not in t}) #(the codec computes them)
        d = {k: t.get(k) for k in set(o) | set(t) if o.get(k) != t.get(k)}
        add, drop, diff = [k for k in d if k not in o], [k for k in d if k not in t], [k for k in d if k in o and k in t]
        print("%-18s %6d entries, agrees %6d, only here %6d, not here %6d, other %5d  %s" % (kind + "/" + n, len(t), sum(1 for k in t if o.get(k) == t[k]), len(add), len(drop), len(diff),
              [(k, o[k], t[k]) for k in sorted(diff)[:3]]))
        if d: out[kind + "/" + n] = {(k.hex() if kind == "from" else k): (v if v is None or kind == "from" else v.hex()) for k, v in sorted(d.items())}
z = zlib.compress(json.dumps(out, separators=(",", ":"), sort_keys=True).encode(), 9)
with open(oracle.FILE, "wb") as fp: fp.write(z)
print(len(z))
