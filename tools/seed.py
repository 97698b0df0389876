#!/usr/bin/env python3
"""Plant a bug: seed.py SPEC.py ; SPEC defines id, property, edits [(file, old, new)], demo (shell after head.sh),
needs, breaks, files {name: text}, use_t. Confirms it in a scratch copy, then writes seeded/<id>/."""
import sys, os, subprocess, shutil, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def main(spec):
    s = {"use_t": True, "files": {}, "needs": "", "breaks": ""}
    exec(open(spec).read(), s)
    sid = s["id"]
    D = "/tmp/sd-" + sid
    shutil.rmtree(D, ignore_errors=True)
    os.makedirs(D)
    R = D + "/repo"
    sh("rsync -a --exclude .git --exclude build /repo/ %s/" % R)
    sh("git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", cwd=R)
    sh("cp -a /opt/vp %s/vp && sed -i 's|/repo|%s|g; s|/opt/vp|%s/vp|g' %s/vp/*.sh %s/vp/*.py" % (D, R, D, D, D))
    S = os.path.join(V, "seeded", sid)
    shutil.rmtree(S, ignore_errors=True)
    os.makedirs(S)
    if s["use_t"]:
        shutil.copy(os.path.join(V, "tools/seedkit/t.c"), S)
    for n, t in s["files"].items():
        open(os.path.join(S, n), "w").write(t)
    with open(S + "/demo.sh", "w") as fp:
        fp.write(open(os.path.join(V, "tools/seedkit/head.sh")).read() + s["demo"].strip() + "\necho demo ok\n")
    os.chmod(S + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(S + "/meta.json", "w"), indent=1)
    ok = True
    DD = D + "/demo"; shutil.copytree(S, DD)
    def test(label):
        p = sh("bash %s/vp/test.sh %s/t.json" % (D, D))
        b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        t = json.load(open(D + "/t.json"))
        miss = sorted(b - set(t["passed"]))
        p = sh("bash %s/demo.sh" % DD, cwd=R, timeout=300)
        print("[%s] %s: stable tests missing %s; demo rc %d: %s" % (sid, label, miss[:5], p.returncode, p.stdout.decode(errors="replace").strip()[-300:]))
        return miss, p.returncode
    m, rc = test("unchanged")
    if m or rc: ok = False
    for f, old, new in s["edits"]:
        p = os.path.join(R, f)
        t = open(p, encoding="latin-1", newline="").read()
        if t.count(old) != 1:
            print("[%s] edit of %s matches %d times" % (sid, f, t.count(old))); ok = False
        open(p, "w", encoding="latin-1", newline="").write(t.replace(old, new))
    d = sh("git diff", cwd=R).stdout
    open(S + "/patch.diff", "wb").write(d)
    m, rc = test("patched")
    if m or rc == 0: ok = False
    if sh("git -C /repo apply --check %s/patch.diff" % S).returncode: ok = False; print("does not apply")
    # every removed line must be of the original repository
    base = sh("git -C /repo diff ea78cef HEAD -U0").stdout.decode(errors="replace").splitlines()
    mine = set(l[1:].strip() for l in base if l.startswith("+") and not l.startswith("+++"))
    rem = [l[1:].strip() for l in d.decode(errors="replace").splitlines() if l.startswith("-") and not l.startswith("---")]
    print("[%s] removed lines that fix commits wrote: %s" % (sid, [l for l in rem if l in mine and l not in ("}", "", "break;")]))
    if not ok:
        print("[%s] REJECTED" % sid); shutil.rmtree(S); shutil.rmtree(D); return 1
    for c in s.get("checks", [s["property"]]):
        if not os.path.exists("%s/checks/%s.py" % (V, c)): continue
        p = sh("VERIF_REPO=%s timeout 900 python3 checks/%s.py" % (R, c), cwd=V)
        o = p.stdout.decode(errors="replace")
        v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
        print("[%s] check %s: rc %d, %d violations\n%s" % (sid, c, p.returncode, len(v), o[:900]))
    shutil.rmtree(D)
    return 0
for a in sys.argv[1:]:
    main(a)
