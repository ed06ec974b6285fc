"""C13: the back end receives exactly the values in force."""
import pfdom
from pf import *


class C13(Check):
    pid = "C13"
    technique = "stateful (model-based) property-based testing: the writes a recording subsystem receives are compared, operation by operation, with those a reference model predicts"
    note = ("A recording subsystem plug-in logs every object it is given, with its bytes. After every operation of a generated history the "
            "log must be a sequence of the predicted synchronisation steps (objects within a step in any order, since the framework orders "
            "them by address), each object once per step, with the bytes in force at that moment. Faults are C15's matter.")
    rule = "at least three operations that wrote to the back end, one of them writing several objects or for a sequence-aware domain"
    quick, thorough = 14000, 160000
    profile = {"weights": {"word": 1, "crit": 14, "apply": 12, "tuning": 5, "restoreConf": 6, "saveConf": 1, "setParam": 10, "setConfParam": 6,
                           "setRule": 1, "hset": 8, "createConf": 1, "deleteConf": 1, "addElem": 1, "putElem": 6,
                           "removeElem": 1, "setSequence": 3, "setSeq": 2, "autosync": 6, "sync": 3, "split": 1, "space": 2},
               "doms": (1, 3), "confs": (1, 3), "n": (4, 26, 14), "file": 0.5, "leave": 0.6, "overlap": 0.3, "rec": 0.85, "maxleaves": 14}

    def gen(self, src, tier):
        return pfdom.gen_history(src, self.profile, tier)

    def run(self, case, ctx):
        r = pfdom.Runner(ctx, case, events=True)
        tags, wrote, many = set(), 0, 0
        for n, o in r.setup():
            _, _, steps = r.step(n, o, events=True)
            if steps:
                wrote += 1
                many += len(steps) > 1 or len(steps[0]) > 1
                tags.add(o["op"])
                if len(steps) > 1:
                    tags.add("sequence-" + o["op"])
        if case["file"]:
            tags.add("from-file")
        r.observe("at the end", lists=False)
        return {"nontrivial": wrote >= 3 and many, "tags": tags}


CHECK = C13
