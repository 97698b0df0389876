"""The command line tool: what it writes and counts (Codecs.tla decides), and what is found after
anything failed or the process was killed at any of its system calls (Cli.tla decides)."""
import sys, os, re, json, signal, resource, stat
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import conform, corpus, kit as K
from kit import FROM as F, TO as T, INTER as I, phase

def tool(b, args, data=b"", cwd=None, limit=None, pre=(), out=None, timeout=60):
    def setup():
        if limit is not None: resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit)); signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    try:
        p = subprocess.run(list(pre) + [os.path.join(b.path, "bin", "bsdconv")] + args, input=data, stdout=out or subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=b.env(), timeout=timeout, preexec_fn=setup, restore_signals=False)
    except subprocess.TimeoutExpired: return "timeout", b"", b"did not end"
    return p.returncode, p.stdout or b"", p.stderr

def counted(err, names):
    """counters per file from what was said: [(file or None, {name: n})]"""
    r, cur = [], (None, {})
    for l in err.decode("utf-8", "surrogateescape").split("\n"):
        m = re.fullmatch(r"File: (.*)", l)
        if m: cur = (m.group(1), {}); r.append(cur); continue
        m = re.fullmatch(r"([^:]+): (\d+)", l)
        if m:
            if cur[0] is None and cur not in r: r.append(cur)
            cur[1][m.group(1)] = int(m.group(2))
        elif l: r.append(("?", {"?": l}))
    return r

def functional(c, b):
    r = c.rng
    u8f, u8t = K.named("UTF-8", F["ASCII"], K.utf8()), K.named("UTF-8", T["UTF-8"], T["ASCII"])
    def conv():
        fr = r.choice([u8f, u8f + [F["BYTE"]], u8f + [K.any_from(None, "")], u8f + [K.any_from([b"\x01="], "BAD")], [F["BYTE"]], [F["UTF-16LE"]], [F["HEX"]]])
        mid = [phase(2, x) for x in r.choice([[], [], [K.count()], [K.count("N")], [K.insert((b"\x01<",), (b"\x01>",))], [K.replace([b"\x01a"], [b"\x01bb"])], [I["BIG5-DEFRAG"]]])]
        to = r.choice([u8t, u8t + [T["BYTE"]], u8t + [K.any_to([b"?"], "")], [T["UTF-16BE"]], [T["HEX"]], [T["ASCII"]], [T["ASCII"], K.any_to([b"."], "")], [T["UCS-2LE"]]])
        return [phase(1, *fr)] + mid + [phase(3, *to)]
    def text(long):
        n = r.choice([0, 1, 3, 10, 40]) if not long else r.choice([1023, 1024, 1025, 2047, 2048, 2049, 3072]) // 3
        s = b"".join(r.choice([b"a", b"z\n", b"\xc3\xa9", b"\xe3\x81\x82", b"\xf0\x9f\x98\x80", b"\xff", b"\xe3\x81", b"41", b"\0", b"0"]) for _ in range(n))
        if long: s += b"xyz" * 1400; s = s[:r.choice([1023, 1024, 1025, 1026, 1027, 2047, 2048, 2049, 2050])]
        return s
    d = scratch("vfk-")
    cases, N = [], 500 if thorough() else 120
    names = ["IERR", "OERR", "BAD", "COUNT", "N"]
    for i in range(N):
        ps = conv(); long = r.random() < .1
        how = r.choice(["stdin", "stdin", "one", "many", "place", "places"])
        if how == "stdin":
            k = K.case(ps, text(long), names, cells=0)
            rc, out, err = tool(b, [k["text"]], bytes(k["in"]))
            got = [(k, out, counted(err, names), None)]
        else:
            n = 1 if how in ("one", "place") else r.randint(2, 4)
            ks = [K.case(ps, text(long and j == 0), names, cells=0) for j in range(n)]
            fs = ["%d %s.%d" % (i, r.choice(["f", "-x", "é", "a b", "%s"]), j) for j in range(n)]
            for f, k in zip(fs, ks):
                with open(os.path.join(d, f), "wb") as fp: fp.write(bytes(k["in"]))
            rc, out, err = tool(b, [ks[0]["text"]] + (["-i"] * r.choice([1, 1, 2]) if how[:5] == "place" else []) + fs, cwd=d)
            said = {f: x for f, x in counted(err, names)}
            if set(said) - set(fs): c.violation("%s says %r" % (ks[0]["text"], err[:200]), {"conversion": ks[0]["text"], "stderr": err.decode("latin1")})
            if how[:5] == "place":
                if out: c.violation("%s in place writes %r to its output" % (ks[0]["text"], out[:100]), {"conversion": ks[0]["text"]})
                got = [(k, open(os.path.join(d, f), "rb").read(), [(f, said.get(f, {}))], f) for k, f in zip(ks, fs)]
            else: #one after the other: the parts are those the specification expects, decided on the whole
                got = [(ks, out, [said.get(f, {}) for f in fs], fs)]
                for f, k in zip(fs, ks):
                    if open(os.path.join(d, f), "rb").read() != bytes(k["in"]): c.violation("a file was changed by converting it to the output", {"conversion": k["text"]})
        if rc != 0: c.violation("%s ends with %s: %s" % (got[0][0]["text"] if isinstance(got[0][0], dict) else got[0][0][0]["text"], rc, err.decode("latin1")[:500]), {"how": how}); continue
        for k, o, cs, f in got:
            if isinstance(k, list): cases.append(dict(parts=[x for x in k], got={"out": list(o), "c": [[x.get(n, 0) for n in names] for x in cs]}, text=k[0]["text"], how=how)); extra = [x for x in cs if set(x) - set(names)]
            else:
                x = cs[0][1] if cs else {}
                cases.append(dict(parts=[k], got={"out": list(o), "c": [[x.get(n, 0) for n in names]]}, text=k["text"], how=how)); extra = set(x) - set(names)
            if extra: c.violation("%s counts %r" % (cases[-1]["text"], extra), {"conversion": cases[-1]["text"]})
    strip = lambda k: {"parts": [{x: p[x] for x in ("ps", "in", "names", "cells")} for p in k["parts"]], "got": k["got"]}
    for j, e in conform.conform(c, "CliText", [strip(k) for k in cases]):
        k = cases[j]
        c.violation("%s (%s) on %s: specification %s, the tool %s" % (k["text"], k["how"], [bytes(p["in"]).hex()[:100] for p in k["parts"]], json.dumps({"out": bytes(e["out"]).hex()[:300], "c": e["c"]}), json.dumps({"out": bytes(k["got"]["out"]).hex()[:300], "c": k["got"]["c"]})),
                    {"conversion": k["text"], "how": k["how"], "inputs": [bytes(p["in"]).hex() for p in k["parts"]], "expected": e, "got": k["got"]})
    c.count("runs_with_text_decided", len(cases))
    for k in r.sample(cases, 3): c.sample({"conversion": k["text"], "how": k["how"], "sizes": [len(p["in"]) for p in k["parts"]], "counters": k["got"]["c"]})

def faults(c):
    r = c.rng
    b = Build(san=False)
    conv = "utf-8,any#013f&error:count:upper:utf-8"
    old = [b"", b"hello \xc3\xa9\xff\n", bytes(r.choice(b"abcdefg \n") for _ in range(5000)), "é中".encode() * 1500, b"x" * 4096, b"y" * 1024]
    new = [tool(b, [conv], x)[1] for x in old]
    cases = []
    base = scratch("vfk-")
    if os.geteuid() == 0: owner = lambda i: (1000 + i, 2000 + i)
    else: owner = lambda i: (os.getuid(), os.getgid())
    modes = [0o644, 0o4755, 0o600, 0o2755, 0o640, 0o6711, 0o664, 0o1700, 0o444]; r.shuffle(modes)
    def scene(kind, sel, inplace):
        """a directory with the files"""
        d = tempfile.mkdtemp(dir=base); os.chmod(d, 0o755)
        fs = []
        for j, x in enumerate(sel):
            f = "f%d.txt" % j; p = os.path.join(d, f)
            if x is None: pass                                   #not there
            elif x == "dir": os.mkdir(p)
            else:
                with open(p, "wb") as fp: fp.write(old[x])
                os.chown(p, *owner(j)); os.chmod(p, modes[j % len(modes)])
            fs.append(f)
        return d, fs
    def judge(what, d, fs, sel, inplace, rc, out, fault, perms=False, removing=False, reading=False, writing=False, able=True, err=b""):
        st, kept = [], True
        for j, (f, x) in enumerate(zip(fs, sel)):
            p = os.path.join(d, f)
            if x is None: st.append("old" if not os.path.lexists(p) else "bad"); continue
            if x == "dir": st.append("old" if os.path.isdir(p) else "bad"); continue
            if not os.path.isfile(p): st.append("bad"); continue
            v = open(p, "rb").read()
            # (an empty file is as it was and converted: whichever is told to go on)
            st.append(("new" if j == 0 or st[-1] == "new" else "old") if old[x] == new[x] == v and inplace else "new" if v == new[x] and inplace else "old" if v == old[x] else "bad")
            s = os.stat(p)
            if st[-1] == "new" and ((s.st_uid, s.st_gid) != owner(j) or stat.S_IMODE(s.st_mode) != modes[j % len(modes)]) and v == new[x] and old[x] != new[x]: kept = False
        whole = b"".join(new[x] for x in sel if isinstance(x, int))
        # an empty file first: it counts as new only if what follows is, or the tool said so
        if inplace:
            for j in range(len(st)):
                if isinstance(sel[j], int) and old[sel[j]] == new[sel[j]]: st[j] = "same"
            nxt = "new" if rc == 0 else "old"
            for j in reversed(range(len(st))):
                if st[j] == "same": st[j] = nxt
                elif st[j] == "new": nxt = "new"
        g = {"inplace": inplace, "files": st, "temps": len(set(os.listdir(d)) - set(fs)), "exit": 256 if isinstance(rc, int) and rc < 0 else 999 if rc == "timeout" else rc, "fault": fault, "removing": removing, "able": able, "kept": kept, "perms": perms,
             "reading": reading, "writing": writing, "out": "whole" if out == whole else "part" if whole.startswith(out) else "bad"}
        cases.append(dict(g, got=[], what=what, err=err.decode("latin1")[-300:]))
        shutil.rmtree(d, ignore_errors=True)
    def go(what, sel, inplace, limit=None, pre=(), out=None, **kw):
        d, fs = scene(what, sel, inplace)
        rc, o, err = tool(b, [conv] + (["-i"] if inplace else []) + fs, cwd=d, limit=limit, pre=pre, out=out)
        if rc == -25 or (limit is not None and rc == -31): rc = 1
        judge(what, d, fs, sel, inplace, rc, o, err=err, **kw)
    scenes = [[1], [2], [0, 1], [1, 2, 3], [4, 0, 5]]
    tasks = []
    add = lambda *a, **k: tasks.append((a, k))
    for sel in scenes:
        for ip in (True, False): add("nothing fails", sel, ip, fault=False)
    for bad in ([None], [1, None], [1, None, 2], ["dir"], [2, "dir", 1]):
        for ip in (True, False): add("cannot be read: %r" % bad, bad, ip, fault=False, able=False, reading=True)
    big = [0, 1, 100, 1023, 1024, 1025, 4095, 4096, 4097, 4999, 5000, 5999, 6000, 8191, 8192, 8999] + r.sample(range(1, 8999), 10)
    for sel in ([2], [1, 2, 3], [3, 1]):
        for n in big:
            need = max(len(new[x]) for x in sel)
            add("no file can be larger than %d bytes" % n, sel, True, limit=n, fault=n < need, able=n >= need)
    for sel in scenes:
        if any(new[x] for x in sel): add("output is full", sel, False, fault=True, able=False, out=open("/dev/full", "wb"), kw_full=True)
    # system calls that fail, and being killed
    try: ok = subprocess.run(["strace", "-o", "/dev/null", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
    except OSError: ok = False
    c.notes["system_calls_traced"] = ok
    if ok:
        for sel in ([1], [0, 2], [1, 2, 3]) if not thorough() else scenes + [[3, 2, 1, 5]]:
            for ip in (True, False):
                d, fs = scene("trace", sel, ip); tr = os.path.join(base, "trace%d" % len(tasks))
                tool(b, [conv] + (["-i"] if ip else []) + fs, cwd=d, pre=("strace", "-o", tr))
                shutil.rmtree(d)
                calls = [re.match(r"(\w+)\((.*)", l) for l in open(tr, errors="replace")]
                calls = [m for m in calls if m]
                first = next(i for i, m in enumerate(calls) if m.group(1) in ("open", "openat", "openat2", "stat", "newfstatat", "access", "lstat") and '"f0.txt"' in m.group(2))
                seen = {}; mine = set()    # (files it made to write into, open now)
                # the last call of the traced ones per file matters little: all after the first file was looked for
                for n, m in enumerate(calls):
                    k = m.group(1); seen[k] = seen.get(k, 0) + 1
                    if "O_EXCL" in m.group(2): mine.add(m.group(2).rsplit("=", 1)[1].strip().split()[0])
                    last = k == "close" and m.group(2).split(")")[0] in mine
                    if last: mine.discard(m.group(2).split(")")[0])
                    if n >= first: add("killed at %s" % m.group(0)[:80], sel, ip, pre=("strace", "-o", "/dev/null", "-e", "inject=%s:signal=KILL:when=%d" % (k, seen[k])), fault=True)
                    if n < first or k in ("exit_group", "munmap", "mmap", "brk", "mprotect", "getrandom", "exit", "rt_sigaction", "rt_sigprocmask", "gettid", "getpid", "tgkill", "madvise", "futex"): continue
                    for e in {"write": ("ENOSPC", "EIO"), "read": ("EIO",), "openat": ("EACCES", "EMFILE"), "rename": ("EACCES",)}.get(k, ("EIO",)):
                        own = k in ("fchown", "fchmod", "chown", "chmod", "fstat", "newfstatat", "stat", "statx", "lstat", "fchownat", "fchmodat", "lchown")
                        inj = ("-e", "inject=%s:error=%s:when=%d" % (k, e, seen[k]))
                        add("%s: %s" % (e, m.group(0)[:80]), sel, ip, pre=("strace", "-o", "/dev/null") + inj, fault=True, perms=own, **({"able": False} if last else {}), reading=k in ("read", "pread64", "readv"), writing=k in ("write", "pwrite64", "writev"))
                        if ip: add("%s: %s, and nothing can be removed" % (e, m.group(0)[:80]), sel, ip, pre=("strace", "-o", "/dev/null") + inj + ("-e", "inject=unlink,unlinkat:error=EACCES"), fault=True, perms=own, removing=True)
    def one(t):
        a, k = t
        k = dict(k); full = k.pop("kw_full", False)
        go(*a, **k)
    with ThreadPoolExecutor(NCPU) as ex: list(ex.map(one, tasks))
    keys = ("inplace", "files", "temps", "exit", "fault", "removing", "able", "kept", "perms", "reading", "writing", "out", "got")
    for j, e in conform.conform(c, "Cli", [{x: k[x] for x in keys} for k in cases], shards=2):
        k = cases[j]
        c.violation("after \"%s\" (%s): %s; %s" % (k["what"], "in place" if k["inplace"] else "to the output", json.dumps({x: k[x] for x in keys if x != "got"}), k["err"]), k)
    c.count("runs_with_something_failing", sum(1 for k in cases if k["fault"])); c.count("runs_killed", sum(1 for k in cases if k["exit"] == 256)); c.count("runs_failed", sum(1 for k in cases if k["exit"] not in (0, 256)))
    for k in r.sample(cases, 5): c.sample({x: k[x] for x in ("what", "inplace", "files", "temps", "exit", "out")})

def run(c):
    n = 4 if thorough() else 3
    m = tlc("MCCli", "SPECIFICATION Spec\nCONSTANTS\n NFiles = %d\n Blocks = 3\n Faults = 3\nINVARIANTS Held Never\nPROPERTIES Stays Ends\nCHECK_DEADLOCK FALSE\n" % n, workers=4)
    if not m.ok: raise CheckError("MCCli: " + m.out[-2000:])
    c.model("MCCli", m, "%d files converted in place, up to three steps failing, killed anywhere: what is found is allowed, done stays done, and it ends" % n)
    functional(c, Build())
    faults(c)
if __name__ == "__main__":
    main(run, "C21")
