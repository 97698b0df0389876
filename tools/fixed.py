#!/usr/bin/env python3
"""Rewrites the 'fixed' list of KNOWN_FINDINGS.json from /repo's fix: commits."""
import subprocess, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = [("interrupted or partial write","C04"),("unfinished last lines","C11"),("data of a plain entry","C11"),("end of a score file","C23"),("bonus phrases","C23"),("completion of an empty","C20"),("CNS 11643 planes","C15"),("alias files were listed","C20"),("bsdconv-man freed","C20"),("bsdconv-man took","C20"),("the euro sign","C22"),("bsdconv_ctl() left","C18"),("leading zero in tables","C22"),("IBM tables read","C22"),("full width backslash","C22"),("GB2312 had the codes","C22"),("swallow bytes left","C15"),("longest match of a from","C16"),("JIS X 0212 in","C16"),("7 bit katakana","C16"),("two byte character of ISO-2022","C16"),("&exist;","C15"),("named entities of HTML 4","C15"),("filter PRINT","C18"),
("phase array","C06"),("case-insensitive table","C11"),("spans two input chunks","C01"),("supplementary characters encoded","C13"),
("EBCDIC encoders","C16"),("abandoned sequence","C03"),("lead byte D9","C13"),("GB18030 four-byte","C13"),("from/BSDCONV freed","C15"),
("decoders lost NUL","C13"),("from/ESCAPE","C15"),("CESU surrogate","C12"),("over U+10FFFF without","C12"),("numeric HTML","C15"),
("CP950-UDA","C22"),("more than four bytes","C13"),("encoders turned values","C13"),("alias that was given","C06"),("input lists lost","C05"),
("unencodable one were","C02"),("bsdconv_hash_get","C09"),("placeholder cells","C01"),("editing functions","C07"),("odd number of digits","C08"),
("release what JIS set up","C08"),("crashed or leaked","C08"),("without the value they need","C08"),("keep the message","C08"),("freed the pending starter","C17"),
("canonical ordering","C17"),("Hangul","C17"),("AMBIGUOUS-UNPAD","C18"),("BIG5-DEFRAG","C18"),("REPLACE","C18"),("STRINGS","C18"),
("LOOSE&CESU","C12"),("shared one queue","C18"),("RERAIL lost","C18"),("BSDCONV-LOG","C08"),("SCORE and","C08"),("ASCII-HTML","C15"),
("unknown module types","C20"),("dropped the continuations","C11"),("empty output left","C02"),("mixed up callback","C11"),("blank lines","C11"),("GB18030 lost","C13"),("longer than any table","C13"),("bsdconv -i lost","C21"),("outside a pipe","C06"),("inside longer names","C06"),("negative indices","C07"),("could not be loaded","C08")]
log = subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],stdout=subprocess.PIPE).stdout.decode().splitlines()
out=[]
for l in log:
    hsh, msg = l.split(" ",1)
    if not msg.startswith("fix:"): continue
    pid = next((p for k,p in M if k in msg), None)
    if pid is None: raise SystemExit("unmapped: "+msg)
    out.append("fixed: property=%s %s %s" % (pid, hsh, msg[5:]))
p=os.path.join(V,"KNOWN_FINDINGS.json")
known = json.load(open(p))["known"] if os.path.exists(p) else []
json.dump({"known":known,"fixed":out}, open(p,"w"), indent=1)
print(len(out))
