"""C11: domain administration behaves as an ordered, named collection."""
import pfdom
from pf import *


class C11(Check):
    pid = "C11"
    technique = "stateful (model-based) property-based testing: generated administration histories against a reference model of ordered named collections"
    note = ("After every operation the reply and all listings (domains, configurations, elements, sequences, rules, belonging, associated, "
            "conflicting, rogue) are compared with the model; at the end also all stored and live values. Names are non-empty, without "
            "line feeds or leading blanks.")
    rule = "at least six accepted structural operations (create, delete, rename, add, remove, split, reorder) and one refused operation"
    quick, thorough = 12000, 120000
    profile = {"weights": {"word": 1, "createDomain": 6, "deleteDomain": 2, "renameDomain": 4, "deleteAllDomains": 1, "setSeq": 3,
                           "createConf": 8, "deleteConf": 4, "renameConf": 5, "addElem": 14, "removeElem": 7, "split": 8,
                           "setSequence": 7, "setRule": 3, "clearRule": 2, "restoreConf": 3, "saveConf": 1, "tuning": 1},
               "doms": (1, 3), "confs": (0, 2), "n": (2, 24, 12)}
    structural = ("createDomain", "deleteDomain", "renameDomain", "createConf", "deleteConf", "renameConf", "addElem", "removeElem",
                  "split", "setSequence")

    def gen(self, src, tier):
        return pfdom.gen_history(src, self.profile, tier)

    def run(self, case, ctx):
        r = pfdom.Runner(ctx, case)
        good = bad = 0
        tags = set()
        for n, o in enumerate(case["ops"]):
            ok, _, _ = r.step(n, o)
            what = "after operation %d %r" % (n, o)
            if n >= case["setup"] - 1:
                r.observe(what, values=False, confs=False, status=False)
            if o["op"] in self.structural:
                if ok:
                    good += 1
                    tags.add(o["op"])
                else:
                    bad += 1
                    tags.add("refused-" + o["op"])
        r.observe("at the end")
        return {"nontrivial": good >= 6 and bad, "tags": tags}


CHECK = C11
