"""C01: rule-driven selection applies the first applicable configuration of each domain."""
import pfdom
from pf import *


class C01(Check):
    pid = "C01"
    technique = "stateful (model-based) property-based testing: generated histories of criterion changes, applications and tuning against a reference model of domains and rules"
    note = ("After every operation all live values and the status report (last applied and pending configuration of every domain) are "
            "compared with the model. Domains overlap in part of the cases, so that the order of application shows in the values; about "
            "half start from a settings file. Rules are evaluated by the model on its own copy of the criterion states.")
    rule = "at least two applications (start and leaving tuning included) that each applied some configuration, and one that left some domain untouched"
    quick, thorough = 14000, 160000
    profile = {"weights": {"crit": 22, "apply": 18, "tuning": 6, "restoreConf": 2, "saveConf": 1, "setParam": 3, "setConfParam": 2,
                           "setRule": 3, "clearRule": 1, "hset": 3, "createConf": 1, "deleteConf": 1, "renameConf": 1, "addElem": 1,
                           "removeElem": 1, "setSequence": 1, "setSeq": 1, "autosync": 1, "sync": 1, "deleteDomain": 1, "renameDomain": 1,
                           "createDomain": 1, "split": 1, "space": 1},
               "doms": (1, 4), "confs": (1, 3), "n": (4, 26, 14), "file": 0.5, "leave": 0.85, "overlap": 0.4}

    def gen(self, src, tier):
        return pfdom.gen_history(src, self.profile, tier)

    def run(self, case, ctx):
        r = pfdom.Runner(ctx, case)
        w = r.w
        tags, n_app, kept = set(), 0, 0
        if case["file"]:
            n_app += bool(w.applied)
            r.observe("after starting from the file", confs=False, lists=False)
        for n, o in r.setup():
            w.applied = None
            r.step(n, o)
            r.observe("after operation %d %r" % (n, o), confs=False, lists=False)
            if w.applied is not None:
                n_app += bool(w.applied)
                kept += len(w.applied) < len(w.doms)
                for d, c in w.applied:
                    dom = w.dom(d)
                    tags.add("applied-sequence-aware" if dom.seq else "applied")
                    if dom.confs[0].name != c:
                        tags.add("applied-not-first")
        if case["file"]:
            tags.add("from-file")
        r.observe("at the end")
        return {"nontrivial": n_app >= 2 and kept, "tags": tags}


CHECK = C01
