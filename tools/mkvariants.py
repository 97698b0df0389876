#!/usr/bin/env python3
"""Take down the tables of Chinese and Japanese variants (spec/data/variants.z). There is no independent source of
them here; ICU's Hans-Hant and Any-Latin agree where they map what the tables map (see DESIGN.md)."""
import sys, os, json, zlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import kit
NAMES = "ZHTW ZHCN ZH-FUZZY-TW ZH-FUZZY-CN BMP-TRANS-CN BMP-TRANS-TW KANJI HANJA ZHTW-WORDS KANA-PHONETIC".split()
out = {}
for n in NAMES:
    d = {}
    for k, v in kit.table("inter", n):
        cs, cur = "", []
        for x in k + [256]:
            if x == 256: cs += chr(int.from_bytes(bytes(cur[1:]), "big")); cur = []
            else: cur.append(x)
        d.setdefault(cs, "".join(chr(int.from_bytes(x[1:], "big")) for x in v))
    out[n] = sorted(d.items())
z = zlib.compress(json.dumps(out, separators=(",", ":"), sort_keys=True, ensure_ascii=False).encode(), 9)
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "data", "variants.z"), "wb").write(z)
print({n: len(d) for n, d in out.items()}, len(z))
