"""Record histories of the public API as event traces of Converter.tla."""
import json
from vlib import *

class Rec:
    """A script for one driver process together with the trace events its answers make."""
    def __init__(self):
        self.lines = []
        self.ev = []          # (line index or None, maker)
        self.groups = [0]     # start of each group in ev
        self.labels = []
        self.fresh = set()    # instances initialised and not told how to give output since
        self.thread = None    # the thread that does what is recorded, within par()

    def _op(self, line, mk=None):
        self.lines.append(line if self.thread is None else "%d %s" % (self.thread, line))
        if mk:
            self.ev.append((len(self.lines) - 1, mk))

    def raw(self, event):
        self.ev.append((None, lambda r: event))

    def par(self, todo):
        """todo: for each thread what it records; all of them at the same time"""
        at = len(self.lines)
        self.lines.append("par")
        for self.thread, f in enumerate(todo): f()
        self.thread = None
        self.lines[at] = "par %d" % (len(self.lines) - at - 1)

    def create(self, h_, c):
        self._op("create %d %s" % (h_, h(c)), lambda r: {"e": "create", "h": h_, "c": c} if r["ok"] else {"e": "createfailed", "c": c, "errno": r.get("errno")})

    def destroy(self, h_):
        self.fresh.discard(h_)
        self._op("destroy %d" % h_, lambda r: {"e": "destroy", "h": h_})

    def init(self, h_):
        self._op("creset %d -" % h_)
        self.fresh.add(h_)
        self._op("init %d" % h_, lambda r: {"e": "init", "h": h_})

    def call(self, h_, d, flush, mode="A", cap=0, own=1):
        """d None: no input"""
        as_ = mode
        if mode == "H" and h_ in self.fresh and len(self.lines) % 2: as_ = "U"      # (holding is what it does then)
        else: self.fresh.discard(h_)
        tok = "-" if d is None or (len(d) == 0 and not own) else hx(d)
        dd = (d or b"").hex()
        def mk(r):
            if r.get("over"):
                return {"e": "overrun", "r": r}
            m = "A" if mode == "A" else mode
            return {"e": "call", "h": h_, "d": dd, "f": int(flush), "m": m, "cap": cap if mode == "P" else 0,
                    "o": r["out"], "n": r["len"] if mode not in "HN" else 0, "ctr": json.dumps(r["ctr"], sort_keys=True)}
        self._op("feed %d %d %s %d %s %d" % (h_, flush, as_, cap, tok, own), mk)

    def run(self, h_, chunks, rng=None, mode="A"):
        """init, feed the chunks, the last one with flush"""
        self.init(h_)
        for i, c in enumerate(chunks):
            self.call(h_, c, i == len(chunks) - 1, mode, own=rng.randint(0, 1) if rng else 1)

    def label(self, s):
        """describe the group being recorded"""
        while len(self.labels) < len(self.groups):
            self.labels.append("")
        self.labels[len(self.groups) - 1] = s

    def end_group(self):
        self.raw({"e": "forget"})
        if len(self.labels) < len(self.groups):
            self.label("")
        self.groups.append(len(self.ev))

    def execute(self, build, timeout=150):
        """returns (list of groups of events, crash)"""
        res, crash = build.run(self.lines, timeout)
        out = []
        for k in range(len(self.groups) - 1):
            g, cut = [], False
            for li, mk in self.ev[self.groups[k]:self.groups[k + 1]]:
                if li is None:
                    g.append(mk(None))
                elif li < len(res):
                    g.append({"e": "noinst"} if "noinst" in res[li] else mk(res[li]))
                else:
                    cut = True
                    break
            out.append([] if cut else g)
        return out, crash

def check_histories(check, build, recs, module="TraceConverter", invariants=("TypeOK", "CompleteAgrees"), rounds=3):
    """run recorders (concurrently), validate everything, report"""
    build.driver()
    with ThreadPoolExecutor(NCPU) as ex:
        outs = list(ex.map(lambda r: r.execute(build), recs))
    groups, info = [], []
    for r, (gs, crash) in zip(recs, outs):
        if crash:
            check.violation("the library died (rc=%s) executing: %s\n%s" % (crash["rc"], crash["op"][:300], crash["stderr"][:1500]),
                            {"script": r.lines[:crash["line"] + 1][-400:], "crash": crash})
        for k, g in enumerate(gs):
            groups.append(g)
            info.append((r, k))
    for i, j in validate_groups(module, groups, check, invariants, rounds):
        r, k = info[i]
        g = groups[i]
        e = g[j] if j < len(g) else None
        what = "%s: history rejected by the specification at event %d: %s" % (r.labels[k] if k < len(r.labels) else "", j, json.dumps(e)[:600])
        check.violation(what, {"label": r.labels[k], "events": g[:j + 1], "script": [r.lines[li] for li, _ in r.ev[r.groups[k]:r.groups[k + 1]] if li is not None]})
    return groups
