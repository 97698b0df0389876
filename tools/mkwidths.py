#!/usr/bin/env python3
"""spec/data/widths.json: widths of the characters there are in Unicode 13 (what the code is made for),
from Python's Unicode database and perl's (for the ages), 1 half, 2 full, 3 ambiguous; and the
characters added later, of which nothing is said here."""
import json, os, subprocess, unicodedata as u
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
age = subprocess.run(["perl", "-MUnicode::UCD=prop_invmap", "-e", 'my ($l,$m)=prop_invmap("Age"); for my $i (0..$#$l) { printf "%d %s\n", $l->[$i], $m->[$i]; }'], stdout=subprocess.PIPE, check=True).stdout.decode().split("\n")
new, w = [], []
ages = [l.split() for l in age if l]
for i, (a, v) in enumerate(ages):
    if v in ("14.0", "15.0", "15.1", "16.0"): new.append([int(a), int(ages[i + 1][0]) - 1])
newset = {c for a, b in new for c in range(a, b + 1)}
for c in range(0x110000):
    e = u.east_asian_width(chr(c)); cat = u.category(chr(c))
    if c in newset: continue
    x = 0 if cat == "Cc" or (cat == "Cn" and e == "N") else {"Na": 1, "N": 1, "H": 1, "W": 2, "F": 2, "A": 3}[e]
    if not x: continue
    if w and w[-1][1] == c - 1 and w[-1][2] == x: w[-1][1] = c
    else: w.append([c, c, x])
os.makedirs(os.path.join(V, "spec/data"), exist_ok=True)
json.dump({"widths": w, "new": new}, open(os.path.join(V, "spec/data/widths.json"), "w"), separators=(",", ":"))
print(len(w), len(new), len(newset))
