"""C12: stored configurations are isolated snapshots."""
import pfdom
from pf import *


class C12(Check):
    pid = "C12"
    technique = "stateful (model-based) property-based testing: generated histories of saving, restoring, editing and restructuring against a reference model that holds every configuration's contents"
    note = ("After every operation the contents of every configuration (read parameter by parameter) and all live values are compared with the "
            "model, in the value space in force.")
    rule = "at least one accepted save, restore or configuration edit, and one accepted operation that restructures a domain holding two configurations or more"
    quick, thorough = 12000, 140000
    profile = {"weights": {"word": 1, "saveConf": 8, "restoreConf": 8, "setParam": 10, "setConfParam": 14, "createConf": 5, "deleteConf": 3,
                           "renameConf": 2, "addElem": 5, "removeElem": 3, "split": 6, "setSequence": 3, "crit": 4, "apply": 4,
                           "tuning": 2, "autosync": 1, "setSeq": 1, "createDomain": 1, "deleteDomain": 1, "renameDomain": 1,
                           "setRule": 1, "hset": 2, "putElem": 4, "clearRule": 1, "space": 3},
               "doms": (1, 3), "confs": (1, 3), "n": (4, 24, 13), "file": 0.3, "leave": 0.1, "overlap": 0.4, "rec": 0.3, "maxleaves": 9}

    def gen(self, src, tier):
        case = pfdom.gen_history(src, self.profile, tier)
        case["raw"], case["hex"] = src.coin(0.2), src.coin(0.3)
        return case

    def run(self, case, ctx):
        r = pfdom.Runner(ctx, case)
        tags, moved, shaped = set(), 0, 0
        for n, o in r.setup():
            ok, _, _ = r.step(n, o)
            r.observe("after operation %d %r" % (n, o), lists=False, status=False)
            if ok and o["op"] in ("saveConf", "restoreConf", "setConfParam"):
                moved += 1
                tags.add(o["op"])
            if ok and o["op"] in ("split", "addElem", "removeElem", "setSequence", "createConf", "deleteConf") and \
                    r.w.dom(o["d"]) and len(r.w.dom(o["d"]).confs) > 1:
                shaped += 1
                tags.add(o["op"])
        o = {"op": "space", "raw": case["raw"], "hex": case["hex"]}
        r.step(len(case["ops"]), o)
        r.observe("at the end")
        return {"nontrivial": moved and shaped, "tags": tags}


CHECK = C12
