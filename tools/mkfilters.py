"""spec/data/filters.json: the characters each named filter lets through. Made once from the block
names listed in modules/filter and an independent list of blocks (perl's Blocks.txt); the ranges
in the code are compared with it here, the result is committed."""
import re, os, json, sys
blocks = {}
for l in open("/usr/share/perl/5.38/unicore/Blocks.txt"):
    m = re.match(r"([0-9A-F]+)\.\.([0-9A-F]+); (.*)", l)
    if m: blocks[m.group(3).strip()] = [int(m.group(1), 16), int(m.group(2), 16)]
out = {}
D = "/repo/modules/filter"
for f in sorted(os.listdir(D)):
    if not f.endswith(".c") or f in ("type.c", "unicode_range.c"): continue
    t = open(os.path.join(D, f)).read()
    if "unicode_range.c" not in t: print("program", f); continue
    rs = []
    for a, b, n in re.findall(r"\{\s*0x([0-9A-Fa-f]+)\s*,\s*0x([0-9A-Fa-f]+)\s*\}\s*,?\s*(?://\s*(.*))?", t):
        a, b = int(a, 16), int(b, 16)
        n = n.strip()
        if n not in blocks: print(f, "%x-%x" % (a, b), "no block:", n)
        elif blocks[n] != [a, b]: print(f, n, "code %x-%x" % (a, b), "block %x-%x" % tuple(blocks[n])); 
        rs.append([a, b])
    if rs != sorted(rs): print(f, "not sorted")
    out[f[:-2]] = rs
json.dump(out, open("/verif/spec/data/filters.json", "w"), separators=(",", ":"), sort_keys=True)
