"""Module listings and availability, on made-up module directories and the shipped one."""
import sys, os, re, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import names, conform

DIRS = {1: "from", 2: "inter", 3: "to", 4: "filter", 5: "scorer"}
def run(c):
    b = Build()
    d = scratch("vfn-")
    rng = c.rng
    empty = os.path.join(d, "none.json")
    with open(empty, "w") as fp:
        json.dump({k: [] for k in ["from", "inter", "to", "filter", "afrom", "ainter", "ato", "afilter"]}, fp)
    trees = []
    def tree(root, i):
        al = {}
        for t, k in DIRS.items():
            if i % 7 == 3 and rng.random() < .3: continue          # no such directory
            p = os.path.join(root, "share", "bsdconv", k); os.makedirs(p)
            n = rng.choice([0, 1, 6, 7, 8, 9, 15, 16, 17, 40, 3])
            na = rng.choice([0, 1, 2, 7, 8, 9, max(0, 8 - n), max(0, 16 - n)])
            def nm(): return "".join(rng.choice("ABCXYZ019_-") for _ in range(rng.choice([1, 2, 3, 6, 20])))
            for _ in range(n):
                f = nm()
                m = rng.random()
                if m < .1: f = f.lower()
                if .1 < m < .18: f = rng.choice(["aliases", "ALIAS", "alia", "alias2", "xalias", "Alias", "ALIASES"])
                if t in (4, 5): f += ".so" if rng.random() < .9 else ""
                elif m > .9: f += rng.choice([".so", ".txt", ".man"])
                open(os.path.join(p, f), "w").close()
            if t < 5: #manual pages
                for f in set(rng.sample(sorted(os.listdir(p)), min(2, len(os.listdir(p)))) + [nm()]):
                    if "." not in f:
                        with open(os.path.join(p, f.upper() + ".man"), "w") as fp: fp.write(rng.choice(["", "DESC\n\tsomething\n", ".r", ".redirect", "x" * 9000, "\n.redirect FROM/X\n"]))
                rd = rng.choice(["from/ASCII", "INTER/X", "to/%s" % nm(), "filter/A.B", "nothing", "scorer/CJK"])
                with open(os.path.join(p, "REDIRECTED.man"), "w") as fp: fp.write(".redirect " + rd + rng.choice(["", "\n", "\nmore\n"]))
            if rng.random() < .8:
                with open(os.path.join(p, "alias"), "w") as fp:
                    for _ in range(na):
                        a = nm(); al.setdefault(t, []).append(a)
                        fp.write(a + "\t" * rng.choice([1, 1, 2]) + (nm() if rng.random() < .8 else ",".join(nm() for _ in range(60))[:rng.choice([100, 250, 254 - len(a), 255 - len(a), 256 - len(a), 300, 511, 600])]) + "\n")
                        if rng.random() < .1: fp.write(rng.choice(["\n", nm() + "\n", " \n", "#" + "x" * 300 + "\n"]))
                        if rng.random() < .2: fp.write("#" + nm() + "\t" + nm() + "\n")
        return al
    for i in range(600 if thorough() else 90):
        root = os.path.join(d, "t%d" % i); os.makedirs(os.path.join(root, "share", "bsdconv"))
        trees.append((root, tree(root, i)))
    ship = {t: [n for n, x in names.alias_file(b, k)] for t, k in names.KINDS.items()}
    trees.append((b.path, ship))
    cwd = scratch("vfw-")
    def one(tr):
        root, al = tr
        L, cs = ["res"], []
        for t, k in list(DIRS.items()) + [(0, None), (6, None), (-1, None)]:
            p = os.path.join(root, "share", "bsdconv", k) if k else None
            files = sorted(os.listdir(p)) if p and os.path.isdir(p) else []
            fc = [names.codes(f) for f in files]
            cs.append({"op": "list", "t": t, "files": fc, "aliases": [names.codes(a) for a in al.get(t, [])]}); L.append("list %d" % t)
            q = {f[:-3] if f.endswith(".so") else f for f in rng_files(files)} | set(al.get(t, [])[:3]) | {"NOSUCH", "x"}
            for n in sorted(q):
                if not n or "/" in n or "." in n: continue
                for m in {n, n.lower()}:
                    cs.append({"op": "check", "t": t, "s": names.codes(m), "files": fc}); L.append("modcheck %d %s" % (t, h(m)))
            L.append("res"); cs.append(None)
        return cs, L, b.run(L, 300, cwd=cwd, env=b.env(BSDCONV_PATH=root))
    def rng_files(f): return f if len(f) < 25 else f[::max(1, len(f) // 25)]
    b.driver()
    with ThreadPoolExecutor(NCPU) as ex: outs = list(ex.map(one, trees))
    helpers(c, b, trees, rng, cwd, names.write(b, d))
    done = []
    for (root, al), (cs, L, (res, crash)) in zip(trees, outs):
        if crash:
            c.violation("the library died (rc=%s) on %s\n%s" % (crash["rc"], crash["op"][:200], crash["stderr"][:800]), {"op": crash["op"], "tree": {k: v for k, v in al.items()}})
        base = res[0]
        for k, r in zip(cs, res[1:]):
            if k is None:
                if (r["cwd"], r["fds"]) != (base["cwd"], base["fds"]):
                    c.violation("listing modules left %s, %d open files; before: %s, %d" % (bytes.fromhex(r["cwd"]), r["fds"], bytes.fromhex(base["cwd"]), base["fds"]), {"before": base, "after": r})
                continue
            if k["op"] == "list" and not r.get("same"): c.violation("bsdconv_codecs_list(%d) and bsdconv_modules_list(%d) differ" % (k["t"], k["t"]), {"type": k["t"]})
            if k["op"] == "list": k["got"] = {"l": [list(bytes.fromhex(x)) for x in r["l"]]}
            else:
                if r["v"] != r["w"]: c.violation("bsdconv_codec_check differs from bsdconv_module_check on %r" % bytes(k["s"]), {"case": k})
                k["got"] = {"v": r["v"]}
            done.append(k)
    txt = lambda g: [bytes(x).decode("latin1") for x in g["l"]] if "l" in g else g["v"]
    for j, e in conform.conform(c, "ConvString", done, env={"NAMES": empty}):
        k = done[j]
        c.violation("%s type %d %s: specification %s, code %s" % (k["op"], k["t"], bytes(k.get("s", b"")), txt(e), txt(k["got"])), {"files": [bytes(f).decode() for f in k["files"]], "aliases": [bytes(f).decode() for f in k.get("aliases", [])], "expected": txt(e), "got": txt(k["got"])})
    # whatever is listed can be used
    lst = {}
    for k in done:
        if k["op"] == "list": lst[k["t"]] = txt(k["got"])      # the shipped tree comes last
    AVOID = {"BSDCONV-LOG", "BSDCONV-OUTPUT", "BSDCONV-STDOUT", "SCORE", "SCORE-TRAIN"}
    L = []
    need = {"REPLACE": "#0141", "TRIM-WIDTH": "#3"}
    for t, f in ((1, "%s:utf-8"), (2, "utf-8:%s:utf-8"), (3, "utf-8:%s"), (4, "utf-8:count#for=%s:utf-8")):
        for n in lst.get(t, []):
            if n not in AVOID and not n.startswith("ASCII-HTML-CNS"): L += ["create 0 " + h(f % (n + (need.get(n, "") if t == 2 else ""))), "destroy 0"]
    res, crash = b.run(L, 300)
    if crash: c.violation("the library died on " + crash["op"], {"op": crash["op"]})
    use = []
    for l, r in zip(L[::2], res[::2]):
        use.append({"op": "usable", "s": list(bytes.fromhex(l.split()[2])), "loc": [], "got": {"ok": r["ok"]}})
    for j, e in conform.conform(c, "ConvString", use, env={"NAMES": names.write(b, d)}):
        c.violation("a listed module %s: %s" % ("cannot be used" if e["ok"] else "is usable though what it stands for is not installed", bytes(use[j]["s"]).decode()), {"conversion": bytes(use[j]["s"]).decode()})
    c.count("listed_used", len(L) // 2); c.count("listings", sum(k["op"] == "list" for k in done)); c.count("trees", len(trees))
    for k in rng.sample([k for k in done if k["op"] == "list"], 5): c.sample({"type": k["t"], "list": txt(k["got"])[:12]})
def helpers(c, b, trees, rng, cwd, shipped):
    """the tools that list, complete and explain names"""
    jobs = []
    for root, al in trees:
        real = root == b.path
        files, pages, names_ = [], [], []
        for t, k in DIRS.items():
            p = os.path.join(root, "share", "bsdconv", k)
            fs = sorted(os.listdir(p)) if os.path.isdir(p) else []
            files.append([names.codes(f) for f in fs])
            for f in fs:
                if f.endswith(".man") and t < 5:
                    x = open(os.path.join(p, f), "rb").read()
                    w = x.split()
                    to = w[1] if x.startswith(b".redirect") and len(w) > 1 and w[0] == b".redirect" else b""
                    pages.append({"t": t, "n": names.codes(f[:-4]), "x": list(x), "to": list(to)})
            names_.append([f.split(".")[0] for f in fs if f != "alias"] + al.get(t, []))
        aliases = [[names.codes(a) for a in al.get(t, [])] for t in DIRS]
        jobs.append({"op": "listing", "root": root, "argv": ["bsdconv", "-l"], "files": files, "aliases": aliases})
        everything = sorted({n for q in names_ for n in q}) or ["X"]
        for _ in range(60 if real else 12):
            s = "".join(rng.choice(everything)[:rng.choice([0, 1, 2, 30])] + rng.choice([":", "|", ",", ":", ""]) for _ in range(rng.choice([0, 1, 2, 3])))
            n = rng.choice(everything); s += rng.choice([n, n[:rng.randint(0, len(n))], n[:1], "", n + "#A=1"])
            if rng.random() < .4: s = s.lower()
            s = rng.choice(["", "", "", "'", '"']) + s + rng.choice(["", "", "", "'", '"', "'"])
            jobs.append({"op": "complete", "root": root, "argv": ["bsdconv-completion", s], "s": names.codes(s), "t_": (files, aliases)})
        for _ in range(60 if real else 12):
            n = rng.choice(everything + ["REDIRECTED"] * 2 + [bytes(x["n"]).decode() for x in pages])
            k = rng.choice(["from", "inter", "to", "filter", "FROM", "To", "scorer", "x", "", "fromm"] if rng.random() < .2 else ["from", "inter", "to", "filter"])
            if rng.random() < .4: n = n.lower()
            s = k + "/" + n if rng.random() < .95 else k
            jobs.append({"op": "man", "root": root, "argv": ["bsdconv-man"] + (s.split("/", 1) if rng.random() < .3 else [s]), "s": names.codes(s), "real": int(real), "pages": pages, "files": files})
    def one(j):
        p = subprocess.run([os.path.join(b.path, "bin", j["argv"][0])] + j["argv"][1:], stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=b.env(BSDCONV_PATH=j["root"]), timeout=120)
        return p
    with ThreadPoolExecutor(NCPU) as ex: ps = list(ex.map(one, jobs))
    lists = {}
    for j, p in zip(jobs, ps):
        if j["op"] == "listing": lists[j["root"]] = p.stdout
    cs = []
    for j, p in zip(jobs, ps):
        if p.returncode not in (0, 1):
            c.violation("%s died (rc=%s)\n%s" % (j["argv"], p.returncode, p.stderr.decode(errors="replace")[:800]), {"argv": j["argv"]}); continue
        k = {x: v for x, v in j.items() if x not in ("root", "argv", "t_")}
        if j["op"] == "listing":
            if p.returncode: c.violation("bsdconv -l ended with %d" % p.returncode, {"argv": j["argv"]})
            k["got"] = {"out": list(p.stdout)}
        elif j["op"] == "complete":
            if p.returncode: c.violation("%s ended with %d" % (j["argv"], p.returncode), {"argv": j["argv"]})
            k["files"], k["aliases"] = j["t_"]
            k["got"] = {"l": [list(x) for x in p.stdout.split(b"\n")[:-1]]}
        else: #(what the library says where the modules it cannot do without are missing is its own matter)
            k["got"] = {"rc": p.returncode, "out": list(p.stdout if j["real"] else re.sub(rb"\Aerror \w+\n", b"", p.stdout))}
        cs.append((k, j))
    say = lambda g: str([bytes(x) for x in g["l"]])[:400] if "l" in g else (g.get("rc"), bytes(g["out"])[-400:])
    for i, e in conform.conform(c, "ConvString", [k for k, _ in cs], env={"NAMES": shipped}):
        k, j = cs[i]
        c.violation("%s: specification %s, code %s" % (j["argv"], say(e), say(k["got"])), {"argv": j["argv"], "tree": j["root"], "expected": str(say(e)), "got": str(say(k["got"]))})
    c.count("tools_run", len(cs))
if __name__ == "__main__":
    main(run, "C20")
