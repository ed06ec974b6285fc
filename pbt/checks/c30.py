"""C30: an instance gives back everything it took."""
import importlib
import json
import os
import shutil

import pfdom
from pf import *

# checks whose cases are replayed here, and how often
OF = [("C01", 1), ("C03", 1), ("C04", 1), ("C05", 2), ("C08", 2), ("C09", 3), ("C10", 5), ("C11", 4), ("C12", 2), ("C13", 3), ("C14", 3), ("C15", 3),
      ("C16", 6), ("C17", 3), ("C18", 5), ("C19", 8), ("C20", 2), ("C21", 4), ("C25", 2), ("C29", 4)]


class C30(Check):
    pid = "C30"
    technique = ("metamorphic property-based testing and fuzzing: a generated life of an instance (of the kinds the other checks generate, damaged "
                 "documents and refused calls included) is repeated and must not leave more blocks of memory, file descriptors or threads behind "
                 "each time; so must a cycle of fuzzed requests which brings a living instance back to the same state")
    note = ("Blocks are counted by hooks of the address sanitizer's allocator. A life (or cycle) is repeated once, and when the repetition left anything "
            "behind, four times more: what counts is growth at each of them. Cycles end with the import of the domains exported before them.")
    rule = "a life with a start that succeeded and at least ten requests, or a cycle with at least one refused request and one that changed something"
    quick, thorough = 6000, 70000
    limit = 60
    options = {"ASAN_OPTIONS": "quarantine_size_mb=1:thread_local_quarantine_size_kb=16:max_allocation_size_mb=512", "REC_MEM": "1",
               "LD_LIBRARY_PATH": "plugs"}

    def __init__(self):
        self.others = {}

    def other(self, pid):
        if pid not in self.others:
            c = importlib.import_module("checks." + pid.lower()).CHECK()
            c.tier, c.built = getattr(self, "tier", "quick"), self.built
            self.others[pid] = c
        return self.others[pid]

    def gen(self, src, tier):
        if src.coin(0.3):
            return {"cycle": self.other("C18").gen(src, tier)}
        pid = src.choice([p for p, n in OF for _ in range(n)])
        return {"of": pid, "case": self.other(pid).gen(src, tier)}

    def run(self, case, ctx):
        if "of" in case:
            return self.life(case, ctx)
        return self.cycle(case["cycle"], ctx)

    def repeat(self, ctx, once, what):
        """once() must not leave more behind each time."""
        def used():
            return [int(x) for x in ctx.run([["mem"]])[0][:3]]
        once()
        a = used()
        once()
        b = used()
        if all(y <= x for x, y in zip(a, b)):
            return
        seen = [a, b]
        for i in range(4):
            if i == 3:
                ctx.run([["mem", "on"]])
            once()
            seen.append(used())
        where = ctx.run([["mem", "off"]])[0][3]
        for i, kind in enumerate(("blocks of memory", "file descriptors", "threads")):
            n = [x[i] for x in seen]
            if all(y > x for x, y in zip(n, n[1:])):
                raise Violation("%s leaves %s behind each time: %s\n%s" % (what, kind, n, where if i == 0 else ""))

    def life(self, case, ctx):
        other = self.other(case["of"])
        info = {}

        def once():
            c = Counting(ctx)
            try:
                got = other.run(json.loads(json.dumps(case["case"])), c)
            except Violation:
                # not what is judged here
                got = None
            ctx.run([["reset"]])
            info.update(got or {}, n=c.n, started=c.started)
        self.repeat(ctx, once, "an instance (of %s)" % case["of"])
        return {"nontrivial": info["n"] >= 10 and info["started"], "tags": {case["of"], "started" if info["started"] else "not-started"}}

    def cycle(self, case, ctx):
        other = self.other("C18")
        os.makedirs(ctx.dir + "/sub", exist_ok=True)
        r = pfdom.Runner(ctx, case)
        r.setup()
        reqs = [other.request(o, ctx, k) for k, o in enumerate(case["fuzz"])]
        doc = ctx.run([["cmd", "a", "getDomainsWithSettingsXML"]])[0]
        must([doc], "exporting")
        q = [["cmd", "a", "setTuningMode", "on" if case["tuning"] else "off"]]
        if case["sync"]:
            q.append(["cmd", "a", "setAutoSync", "off"])
        if case["fail"]:
            q.append(["rfault", "failWrite", 1, case["fail"]])
        q += reqs
        last = [["rfault", "failWrite", 0, case["fail"]]] if case["fail"] else []
        last += [["cmd", "a", "setTuningMode", "on"], ["cmd", "a", "setAutoSync", "on"], ["cmd", "a", "setValueSpace", "real"],
                 ["cmd", "a", "setDomainsWithSettingsXML", doc[1]], ["rtake"], ["log", "a"]]
        tags = {"cycle"}

        def once():
            rep = ctx.run(q + last)
            if rep[-3][0] != "1":
                tags.add("not-restored")
            tags.update("refused" if x[0] == "0" else "done" for x in rep[len(q) - len(reqs):len(q)])
        try:
            self.repeat(ctx, once, "a cycle of requests")
        finally:
            shutil.rmtree(ctx.dir + "/sub", ignore_errors=True)
        ctx.run([["reset"]])
        return {"nontrivial": {"refused", "done"} <= tags, "tags": tags}


class Counting:
    """What the other check is given to run its case on."""

    def __init__(self, ctx):
        self.ctx, self.n, self.started = ctx, 0, False

    def __getattr__(self, name):
        return getattr(self.ctx, name)

    def run(self, requests, raw=False):
        rep = self.ctx.run(requests, raw)
        self.n += len(requests)
        for q, a in zip(requests, rep):
            if q[0] in ("start", "cstart") and a[0] in ("1", b"1"):
                self.started = True
        return rep


CHECK = C30
