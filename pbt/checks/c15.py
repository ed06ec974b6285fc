"""C15: back-end failures are reported, contained and repaired by resynchronisation."""
import pfdom
import pfstruct as ps
from pf import *


class C15(Check):
    pid = "C15"
    technique = "stateful (model-based) property-based testing with fault injection: a recording subsystem refuses writes and reads, dies or asks for resynchronisation along generated histories"
    note = ("After every operation the outcome and error text, the writes each object received, all live values and at the end all stored "
            "configurations are compared with a model that knows the injected faults. Before starting, each object is given a back-end image, "
            "or is unreadable, or its subsystem dead. ")
    rule = "at least one operation failed because of an injected fault or one resynchronisation wrote something, and at least two operations wrote to the back end"
    quick, thorough = 12000, 140000
    profile = {"weights": {"fault": 12, "crit": 12, "apply": 12, "tuning": 5, "restoreConf": 8, "setParam": 9, "setConfParam": 5,
                           "hset": 8, "createConf": 1, "saveConf": 1, "addElem": 1, "putElem": 5, "setSeq": 2, "autosync": 6, "sync": 4, "space": 1},
               "doms": (0, 3), "confs": (1, 3), "n": (4, 26, 14), "file": 0.6, "leave": 0.5, "overlap": 0.3, "rec": 0.9, "maxleaves": 12}

    def gen(self, src, tier):
        case, w = pfdom.gen_world(src, self.profile, tier)
        # faults are there before the history starts
        case["pre"], back = [], {}
        for s in w.root.kids:
            for kind, p in (("dead", 0.12), ("resync", 0.15)):
                if w.rec(s) and src.coin(p):
                    case["pre"].append({"op": "fault", "kind": kind, "p": s.path, "v": True})
        for o in sorted(w.all_objects()):
            if src.coin(0.75):
                v = w.vals.copy()
                for l in w.nodes[o].leaves():
                    if l.kind in ps.INTLIKE:
                        v.v[l.path] = [ps.gen_stored(src, l.e) for _ in range(max(1, l.arr))]
                    else:
                        new = v.encode_all(l, ps.gen_text(src, l, False, 0), False)
                        v.v[l.path] = v.v[l.path] if new is None else new
                back[o] = v.bytes(w.nodes[o]).hex()
            else:
                back[o] = None
        case["back"] = back
        return pfdom.gen_history(src, self.profile, tier, world=(case, w))

    def run(self, case, ctx):
        back = {p: b if b is None else bytes.fromhex(b) for p, b in case["back"].items()}
        r = pfdom.Runner(ctx, case, events=True, pre=case["pre"], back=back)
        w = r.w
        tags, wrote, hit = set(), 0, 0
        r.observe("after starting", confs=False, lists=False)
        if case["pre"]:
            tags.add("faulty-start")
        for n, o in r.setup():
            re = set(w.resync)
            ok, _, steps = r.step(n, o, events=True)
            what = "after operation %d %r" % (n, o)
            r.observe(what, confs=o["op"] in ("restoreConf", "saveConf", "setConfParam"), lists=False)
            wrote += bool(steps)
            if w.errs:
                tags.add("failed-" + o["op"])
                hit += 1
            if re and not w.resync and steps:
                tags.add("resync-" + o["op"])
                hit += 1
            if w.failing or w.dead:
                if o["op"] in ("apply", "tuning") and steps:
                    tags.add("applied-under-fault")
        r.observe("at the end")
        return {"nontrivial": hit and wrote >= 2, "tags": tags}


CHECK = C15
