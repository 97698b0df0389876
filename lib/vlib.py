"""Shared machinery: build /repo's working tree in a scratch directory, drive the
real library, run TLC, collect evidence, report violations."""
import os, sys, json, time, subprocess, tempfile, shutil, atexit, hashlib, random, re, signal, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
T0 = time.time()
NCPU = max(2, min(8, os.cpu_count() or 2))
FROM, INTER, TO, FILTER, SCORER = 1, 2, 3, 4, 5

class CheckError(Exception):
    pass

_scratch = []
def scratch(prefix="vf-"):
    d = tempfile.mkdtemp(prefix=prefix, dir=os.environ.get("VERIF_TMP", "/tmp"))
    _scratch.append(d)
    return d

@atexit.register
def _cleanup():
    for d in _scratch:
        shutil.rmtree(d, ignore_errors=True)

def h(s):
    if isinstance(s, str):
        s = s.encode("utf-8", "surrogateescape")
    return s.hex()

def hx(s):
    """hex token for the driver; empty is '_' (zero length), None is '-' (no input)."""
    if s is None:
        return "-"
    r = h(s)
    return r if r else "_"

def thorough():
    return TIER == "thorough"

# ------------------------------------------------------------------ build
SAN = {"thread": ["gcc", "-fsanitize=thread"], "memory": ["clang", "-fsanitize=memory", "-fsanitize-memory-track-origins=2", "-fno-omit-frame-pointer"]}
class Build:
    def __init__(self, san=True, what="all"):
        pre = os.environ.get("VERIF_BUILD")
        if pre:
            self.dir = pre
        else:
            self.dir = scratch("vfb-")
            self._copy()
            self._make(san, what)
        self.san = san
        self.path = os.path.join(self.dir, "build")
        self.drv, self.hung = None, False
        self.lock = threading.Lock()

    def _copy(self):
        files = subprocess.run(["git", "-C", REPO, "ls-files", "-co", "--exclude-standard", "-z"],
                               stdout=subprocess.PIPE, check=True).stdout
        lst = b"\0".join(f for f in files.split(b"\0") if f and os.path.lexists(os.path.join(REPO.encode(), f)))
        p = subprocess.run(["rsync", "-a", "--from0", "--files-from=-", REPO + "/", self.dir + "/"], input=lst,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise CheckError("copy of the tree failed: " + p.stdout.decode(errors="replace")[-500:])

    def _make(self, san, what):
        cc = "gcc -g -O1" + (" -fsanitize=address,bounds -fno-sanitize-recover=bounds -ftrivial-auto-var-init=pattern" if san else "")
        env = dict(os.environ)
        env.pop("MAKEFLAGS", None)
        # the table compiler is a short-lived tool that exits without freeing
        env["ASAN_OPTIONS"] = "detect_leaks=0"
        p = subprocess.run(["make", "-j%d" % NCPU, "SHELL=/bin/bash", ".SHELLFLAGS=-ec", "CC=" + cc, "all", "bsdconv-dbg"],
                           cwd=self.dir, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise CheckError("build failed:\n" + p.stdout.decode(errors="replace")[-3000:])

    def races(self, san="thread"):
        """the same tree again, its library and modules (not its tables, which are data) built so that what two threads
        both touch is reported (or, san "memory": what depends on bytes nobody wrote); None where such a build does not run"""
        o = Build.__new__(Build)
        o.dir, o.san, o.drv, o.hung, o.lock = scratch("vft-"), san, None, False, threading.Lock()
        o.path = os.path.join(o.dir, "build")
        p = subprocess.run(["rsync", "-a", "--exclude=*.so", "--exclude=*.so.*", self.dir + "/", o.dir + "/"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode: raise CheckError("copy of the build failed: " + p.stdout.decode(errors="replace")[-500:])
        cc = SAN[san] + ["-g", "-O1", "-w", "-D_BSDCONV_INTERNAL", '-DPREFIX="/usr/local"', '-DBSDCONV_PATH="/usr/local"', "-fPIC", "-shared"]
        def one(w):
            p = subprocess.run(cc + w, cwd=o.dir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            return p.returncode == 0
        lib = sorted(f for f in os.listdir(os.path.join(self.path, "lib")) if not os.path.islink(os.path.join(self.path, "lib", f)))[0]
        if not one(["src/libbsdconv.c", "-o", "build/lib/" + lib, "-ldl"]): return None
        for f in os.listdir(os.path.join(self.path, "lib")):
            if f != lib: os.symlink(lib, os.path.join(o.path, "lib", f))
        sh = os.path.join(self.path, "share", "bsdconv")
        todo = [os.path.join(t, f[:-3]) for t in sorted(os.listdir(sh)) for f in sorted(os.listdir(os.path.join(sh, t))) if f.endswith(".so")]
        with ThreadPoolExecutor(NCPU) as ex:
            if not all(ex.map(lambda m: one(["modules/%s.c" % m, "-Lbuild/lib", "-o", "build/share/bsdconv/%s.so" % m, "-lbsdconv", "-ldl"]), todo)): return None
        p = subprocess.run([o.driver()], input=b"echo 1\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=o.env())
        return o if p.returncode == 0 else None

    def env(self, **kw):
        e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": self.dir, "LC_ALL": "C",
             "BSDCONV_PATH": self.path, "LD_LIBRARY_PATH": os.path.join(self.path, "lib"),
             "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:detect_odr_violation=0:allocator_may_return_null=1:hard_rss_limit_mb=2500",
             "MSAN_OPTIONS": "exitcode=98:allocator_may_return_null=1", "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0", "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99"}
        e.update(kw)
        return e

    def compile(self, src, out, extra=()):
        out = os.path.join(self.dir, out)
        cmd = (SAN[self.san] if self.san in SAN else ["gcc"] + ["-fsanitize=address,bounds"] * bool(self.san)) + ["-g", "-O1", "-w", "-D_GNU_SOURCE"] + \
              ["-I" + os.path.join(self.dir, "src"), src, "-o", out, "-L" + os.path.join(self.path, "lib"), "-lbsdconv"] + list(extra)
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise CheckError("harness build failed: " + p.stdout.decode(errors="replace")[-2000:])
        return out

    def driver(self):
        with self.lock:
          if not self.drv:
            self.drv = self.compile(os.path.join(VERIF, "harness", "drv.c"), "drv.%d" % os.getpid())
        return self.drv

    def run(self, lines, timeout=150, cwd=None, env=None, again=True):
        """Execute a driver script. Returns (results, crash) where crash is None or a
        dict describing how the process died and at which script line."""
        data = ("\n".join(lines) + "\n").encode()
        if thorough(): timeout *= 4
        try:
            p = subprocess.run([self.driver()], input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               env=env or self.env(), cwd=cwd or self.dir, timeout=60 if self.hung else timeout)
            out, err, rc = p.stdout, p.stderr, p.returncode
        except subprocess.TimeoutExpired as ex:
            # a machine that was held up is no answer: only a run that hangs twice hangs
            if again and not self.hung and time.time() - T0 < 400: return self.run(lines, timeout if not thorough() else timeout // 4, cwd, env, False)
            self.hung = True
            out, err, rc = ex.stdout or b"", ex.stderr or b"", "timeout"
        res = []
        for l in out.split(b"\n"):
            if l.startswith(b"{"):
                try:
                    res.append(json.loads(l.decode("latin1")))
                except ValueError:
                    break
        crash = None
        if rc != 0:
            if rc == 2 and b"unknown op" in err:
                raise CheckError(err.decode())
            idx = len(res)     # every answer is flushed before the next operation
            crash = {"rc": rc, "line": idx, "op": lines[idx] if idx < len(lines) else "(exit)",
                     "stderr": err.decode(errors="replace")[:3000]}
        elif len(res) != sum(1 for l in lines if l.strip()):
            raise CheckError("driver answered %d of %d operations" % (len(res), len(lines)))
        return res, crash

    def run_many(self, scripts, timeout=150, workers=NCPU, envs=None):
        """scripts: list of line lists. Runs concurrently, keeps order."""
        self.driver()
        with ThreadPoolExecutor(workers) as ex:
            return list(ex.map(lambda k: self.run(scripts[k], timeout, env=envs and envs[k]), range(len(scripts))))

# ------------------------------------------------------------------ TLC
JAR = "/opt/veriftools/tla/tla2tools.jar"
def _classpath():
    cp = []
    base = "/opt/veriftools/tla"
    for f in sorted(os.listdir(base)):
        if f.endswith(".jar"):
            cp.append(os.path.join(base, f))
    return ":".join(cp)

class TLCResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out)
        self.generated = int(m[-1][0]) if m else 0
        self.distinct = int(m[-1][1]) if m else 0
        m = re.search(r"The depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0
        self.ok = rc == 0
        # 10 assumption, 11 deadlock, 12 safety, 13 liveness  -> property outcome; others: model error
        self.violated = rc in (10, 11, 12, 13)
    def printed(self, tag):
        """values printed with PrintT(<<tag, json>>) - returns the decoded json list"""
        r = []
        pre = '<<"%s", "' % tag
        for l in self.out.split("\n"):
            if l.startswith(pre) and l.endswith('">>'):
                r.append(json.loads(json.loads('"' + l[len(pre):-3] + '"')))
        return r

def tlc(module, cfg, workdir=None, workers=1, timeout=800, extra=(), jvm=(), files=(), env=None, heap="3g", jopts=()):
    """Run TLC on SPEC/<module>.tla with the given cfg text. Everything is copied to a scratch dir."""
    d = workdir or scratch("vft-")
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            dst = os.path.join(d, f)
            if not os.path.exists(dst):
                shutil.copy(os.path.join(SPEC, f), dst)
    for name, text in files:
        with open(os.path.join(d, name), "w") as fp:
            fp.write(text)
    cfgp = os.path.join(d, "run-%s.cfg" % hashlib.md5((module + cfg).encode()).hexdigest()[:8])
    with open(cfgp, "w") as fp:
        fp.write(cfg)
    meta = tempfile.mkdtemp(prefix="meta", dir=d)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Djava.io.tmpdir=" + d] + list(jopts) + \
          ["-cp", _classpath(), "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-config", cfgp, "-noGenerateSpecTE"] + \
          list(extra) + [os.path.join(d, module + ".tla")]
    t = time.time()
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e)
    except subprocess.TimeoutExpired as ex:
        raise CheckError("TLC timed out on %s after %ds" % (module, timeout))
    out = p.stdout.decode(errors="replace")
    shutil.rmtree(meta, ignore_errors=True)
    r = TLCResult(p.returncode, out, time.time() - t)
    if not r.ok and not r.violated:
        k = max(0, out.find("Error:"))
        raise CheckError("TLC failed on %s (rc %d):\n%s\n...\n%s" % (module, p.returncode, out[k:k + 2500], out[-1500:]))
    return r

def tla_str(s):
    return json.dumps(s)

def validate(module, shards, invariants=(), timeout=800, workers=NCPU, check=None, name=None, heap="2g"):
    """Trace validation. shards: list of lists of events. Returns a list with, per shard,
    None (accepted) or the index of the first event no behaviour of the specification
    explains. Each rejection is re-run once; a different answer is an error of the check."""
    cfg = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n" + \
          "".join("INVARIANT %s\n" % i for i in invariants)
    def one(ev):
        if not ev:
            return None, None
        d = scratch("vft-")
        tr = os.path.join(d, "trace.ndjson")
        with open(tr, "w") as fp:
            for e in ev:
                fp.write(json.dumps(e) + "\n")
        def go():
            r = tlc(module, cfg, workdir=d, env={"TRACE": tr}, timeout=timeout, heap=heap)
            m = re.search(r'<<"ACCEPTED", "(\d+)", "(\d+)">>', r.out)
            if not m:
                if r.violated:
                    st = re.findall(r"^/\\ l = (\d+)", r.out, re.M)
                    return r, (int(st[-1]) - 2 if st else 0)
                raise CheckError("no verdict from TLC on %s: %s" % (module, r.out[-1500:]))
            a, n = int(m.group(1)), int(m.group(2))
            if n != len(ev):
                raise CheckError("trace length mismatch")
            return r, (None if a == n and r.ok else a)
        r, v = go()
        if v is not None:
            r2, v2 = go()
            if v2 != v:
                raise CheckError("unstable trace validation result")
        shutil.rmtree(d, ignore_errors=True)
        return r, v
    with ThreadPoolExecutor(workers) as ex:
        rs = list(ex.map(one, shards))
    if check is not None:
        for (r, v), ev in zip(rs, shards):
            if r is not None:
                check.cov["states"] += r.distinct
                check.cov["transitions"] += r.generated
        check.models.append({"spec": name or module, "kind": "trace validation", "shards": len([s for s in shards if s]),
                             "events": sum(len(s) for s in shards)})
    return [v for r, v in rs]

def validate_groups(module, groups, check, invariants=(), rounds=3, name=None, timeout=800, heap="2g"):
    """groups: self-contained event lists. Returns [(group index, event index in group)] for
    every group found unexplainable (each TLC run stops at its first; the offending group is
    set aside and the rest of its shard validated again)."""
    idx = [i for i in range(len(groups)) if groups[i]]
    sh = [[] for _ in range(NCPU)]
    tot = [0] * NCPU
    for i in sorted(idx, key=lambda i: -len(groups[i])):
        k = tot.index(min(tot))
        sh[k].append(i)
        tot[k] += len(groups[i])
    bad = []
    todo = sh
    for rnd in range(rounds):
        vs = validate(module, [[e for i in s for e in groups[i]] for s in todo], invariants, timeout,
                      check=check, name=name, heap=heap)
        nxt = []
        for s, v in zip(todo, vs):
            if v is None:
                check.traces(len(s))
                continue
            n = 0
            for i in s:
                if v < n + len(groups[i]):
                    bad.append((i, v - n))
                    nxt.append([j for j in s if j != i])
                    break
                n += len(groups[i])
        todo = [s for s in nxt if s]
        if not todo or (bad and time.time() - T0 > 240):
            break
    return bad

def balance(groups, n=NCPU):
    """distribute groups (lists of events that must stay together) over n shards"""
    sh = [[] for _ in range(n)]
    for g in sorted(groups, key=len, reverse=True):
        min(sh, key=len).append(g)
    return sh

# ------------------------------------------------------------------ reporting
class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.t0 = time.time()
        self.level = level
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0}
        self.viol = []
        self.samples = []
        self.notes = {}
        self.models = []
        self.rng = random.Random(SEED * 1000003 + int(hashlib.md5(pid.encode()).hexdigest()[:6], 16))
        self.known = load_known(pid)
        self.known_hit = set()

    def model(self, name, r, note=""):
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.models.append({"spec": name, "distinct_states": r.distinct, "states_generated": r.generated,
                            "depth": r.depth, "wall_s": round(r.wall, 1), "note": note})

    def traces(self, n):
        self.cov["traces_validated_against_impl"] += n

    def count(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def violation(self, what, replay):
        """replay: json-able description sufficient to reproduce"""
        key = known_key(what, replay)
        for k in self.known:
            if k["match"] in what:
                if k["match"] not in self.known_hit:
                    self.known_hit.add(k["match"])
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
                return
        self.viol.append((what, replay))

    def left(self, budget):
        return budget - (time.time() - self.t0)

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = dict(self.cov)
        cov["samples"] = self.samples[:12] or ["(none)"]
        cov["models"] = self.models
        cov.update(self.notes)
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        path = os.path.join(VERIF, "evidence", self.pid + ".json")
        rc = 0
        for i, (what, replay) in enumerate(self.viol[:int(os.environ.get('VERIF_SHOW','5'))]):
            rp = os.path.join(VERIF, "evidence", "replay-%s-%d.json" % (self.pid, i))
            with open(rp, "w") as fp:
                json.dump({"property": self.pid, "what": what, "replay": replay}, fp, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            print("  " + what[:600].replace("\n", "\n  "))
            rc = 1
        with open(path, "w") as fp:
            json.dump(ev, fp, indent=1)
        print("%s: %s in %.1fs; %s" % (self.pid, "FAILED" if rc else "ok", time.time() - self.t0,
              {k: v for k, v in cov.items() if k not in ("samples", "models")}))
        sys.stdout.flush()
        return rc

def known_key(what, replay):
    return what

def load_known(pid):
    p = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if not os.path.exists(p):
        return []
    with open(p) as fp:
        d = json.load(fp)
    return [k for k in d.get("known", []) if k["property"] == pid]

def main(fn, pid):
    c = Check(pid)
    try:
        try:
            fn(c)
        except CheckError: raise
        except Exception as e:
            # an accident of the machine (a process that could not start, a time-out): once more from the start
            import traceback
            traceback.print_exc()
            if c.viol or time.time() - T0 > 400: raise CheckError(repr(e)[:500])
            print("note: starting over after %s" % repr(e)[:300])
            c = Check(pid)
            try: fn(c)
            except CheckError: raise
            except Exception as e:
                traceback.print_exc()
                raise CheckError(repr(e)[:500])
    except CheckError as e:
        if c.viol:
            print("note: check stopped early: %s" % str(e)[:500])
        else:
            print("ERROR in check %s: %s" % (pid, e))
            sys.exit(3)
    sys.exit(c.finish())
