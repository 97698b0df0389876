"""What modules and aliases a build has, in the form ConvString.tla reads."""
import os, re, json
from vlib import *

KINDS = {1: "from", 2: "inter", 3: "to", 4: "filter"}
def codes(s): return list(s.encode("latin1") if isinstance(s, str) else s)

def alias_file(build, kind):
    r = []
    for l in open(os.path.join(build.dir, "modules", kind, "alias"), encoding="latin1"):
        l = l.rstrip("\r\n")
        if l and not l.startswith("#") and "\t" in l:
            a = re.split(r"\t+", l)
            r.append((a[0], a[1]))
    return r

def modules(build, kind):
    d = os.path.join(build.path, "share", "bsdconv", kind)
    fs = os.listdir(d)
    if kind in ("filter", "scorer"):
        return sorted(f[:-3] for f in fs if f.endswith(".so"))
    return sorted(f for f in fs if "." not in f and f != "alias")

def write(build, where):
    d = {}
    for k in KINDS.values():
        d[k] = [codes(x) for x in modules(build, k)]
        d["a" + k] = [{"n": codes(n), "x": codes(x)} for n, x in alias_file(build, k)]
    p = os.path.join(where, "names.json")
    with open(p, "w") as fp:
        json.dump(d, fp)
    return p
