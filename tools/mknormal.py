#!/usr/bin/env python3
"""spec/data/normal.json and mappings.json: decompositions, combining classes, compositions and case
and width mappings of the characters there are in Unicode 13, from Python's and perl's Unicode
databases. Of superscripts, subscripts and widths the choice of characters is the code's; that each
is what the database says is checked here."""
import json, os, subprocess, unicodedata as u
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(V, "spec/data")
newset = {c for a, b in json.load(open(os.path.join(D, "widths.json")))["new"] for c in range(a, b + 1)}
cps = [c for c in range(0x110000) if not 0xd800 <= c < 0xe000 and c not in newset]
hangul = range(0xac00, 0xac00 + 11172)
def runs(f):
    out = []
    for c in cps:
        x = f(chr(c))
        if not x: continue
        if out and out[-1][1] == c - 1 and out[-1][2] == x: out[-1][1] = c
        else: out.append([c, c, x])
    return out
N = {"ccc": runs(u.combining)}
for n in ("NFD", "NFKD"):
    N[n.lower()] = [[c, [ord(x) for x in u.normalize(n, chr(c))]] for c in cps if c not in hangul and u.normalize(n, chr(c)) != chr(c)]
N["comp"] = []
for c in cps:
    d = u.decomposition(chr(c)).split()
    if len(d) == 2 and not d[0].startswith("<") and u.normalize("NFC", chr(c)) == chr(c): N["comp"].append([int(d[0], 16), int(d[1], 16), c])
json.dump(N, open(os.path.join(D, "normal.json"), "w"), separators=(",", ":"))
print({k: len(v) for k, v in N.items()})
# simple case mappings come first, the full ones where there is no simple one
simple = {}
for p, k in (("Simple_Uppercase_Mapping", "UPPER"), ("Simple_Lowercase_Mapping", "LOWER")):
    o = subprocess.run(["perl", "-MUnicode::UCD=prop_invmap", "-e", 'my ($l,$m,$f,$d)=prop_invmap("%s"); for my $i (0..$#$l) { my $v=$m->[$i]; next if $v eq $d; my $e=$l->[$i+1]; for my $c ($l->[$i]..$e-1) { printf "%%d %%d\n", $c, $v+$c-$l->[$i]; } }' % p], stdout=subprocess.PIPE, check=True).stdout.decode()
    simple[k] = {int(a): int(b) for a, b in (l.split() for l in o.splitlines())}
M = {}
for k, f in (("UPPER", str.upper), ("LOWER", str.lower)):
    M[k] = [[c, [simple[k][c]] if simple[k].get(c, c) != c else [ord(x) for x in f(chr(c))]] for c in cps if simple[k].get(c, c) != c or f(chr(c)) != chr(c)]
M["CASEFOLD"] = [[c, [ord(x) for x in chr(c).casefold()]] for c in cps if chr(c).casefold() != chr(c)]
def src(n):
    for l in open("/repo/modules/inter/%s.txt" % n):
        f = l.split("#")[0].split()
        if len(f) == 2: yield [int(f[0][2:], 16), int(f[1][2:], 16)]
for n, tags in (("FULL", ("wide", "-narrow")), ("HALF", ("-wide", "narrow")), ("SUPER", ("super",)), ("SUB", ("sub",))):
    M[n] = []
    for a, b in src(n):
        if a in {x[0] for x in M[n]}: continue
        ok = any(u.decomposition(chr(a if t[0] == "-" else b)) == "<%s> %04X" % (t.lstrip("-"), b if t[0] == "-" else a) for t in tags)
        if not ok: print(n, "%x %x" % (a, b))
        M[n].append([a, [b]])
json.dump(M, open(os.path.join(D, "mappings.json"), "w"), separators=(",", ":"))
print({k: len(v) for k, v in M.items()})
