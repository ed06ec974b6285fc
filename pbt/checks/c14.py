"""C14: tuning mode separates the integrator from the running system."""
import os
import pfdom
import pfstruct as ps
from pf import *

D, DC, E, P, DCP = "d", "dc", "e", "p", "dcp"
INSPECT = {"help": "", "version": "", "status": "", "getTuningMode": "", "getValueSpace": "", "getOutputRawFormat": "", "getAutoSync": "",
           "listCriteria": "", "dumpDomains": "", "listDomains": "", "listConfigurations": D, "listDomainElements": D,
           "getSequenceAwareness": D, "getElementSequence": DC, "getRule": DC, "listElements": E, "listParameters": E,
           "getElementStructureXML": E, "getElementBytes": E, "getElementXML": E, "dumpElement": E, "getElementSize": E, "showProperties": E,
           "getParameter": P, "listBelongingDomains": E, "listAssociatedDomains": E, "getConfigurationParameter": DCP, "showMapping": P,
           "listAssociatedElements": "", "listConflictingElements": "", "listRogueElements": "", "getDomainsWithSettingsXML": "",
           "getDomainWithSettingsXML": D, "getSystemClassXML": "", "getDomainsXML": "", "exportDomainsXML": "f",
           "exportDomainsWithSettingsXML": "f", "exportDomainWithSettingsXML": "df"}
IMPORTS = ["importDomainsXML", "importDomainsWithSettingsXML", "importDomainWithSettingsXML", "setDomainsWithSettingsXML",
           "setDomainWithSettingsXML"]


class C14(Check):
    pid = "C14"
    technique = "stateful (model-based) property-based testing: histories interleaving tuning switches, every editing and inspection command, application requests, criteria and handle writes, against a reference model and full state comparison"
    note = ("After every operation all values, stored configurations, listings, rules and the status are compared with the model, and the writes "
            "the recording subsystem received with the predicted ones (none for refused, ignored and inspection requests). Part of the cases "
            "start with tuning prohibited.")
    rule = "an edit refused outside of tuning, and an application request or handle write ignored in tuning (or tuning itself refused as prohibited)"
    quick, thorough = 9000, 110000
    profile = {"weights": {"word": 1, "saveConf": 2, "restoreConf": 3, "setParam": 4, "setConfParam": 2, "createConf": 2, "deleteConf": 2,
                           "renameConf": 1, "addElem": 2, "removeElem": 2, "split": 2, "setSequence": 2, "crit": 8, "apply": 10,
                           "tuning": 12, "autosync": 3, "sync": 2, "setSeq": 2, "createDomain": 2, "deleteDomain": 1, "deleteAllDomains": 1,
                           "renameDomain": 1, "setRule": 2, "clearRule": 1, "hset": 6, "putElem": 3, "space": 1, "inspect": 14, "import": 5},
               "doms": (1, 2), "confs": (1, 3), "n": (4, 22, 13), "file": 0.4, "leave": 0.5, "overlap": 0.3, "rec": 0.5, "maxleaves": 7,
               "modal": False}

    def gen(self, src, tier):
        profile = self.profile
        prohibited = src.coin(0.15)
        if prohibited:
            profile = dict(profile, file=1, leave=0)

        def extra(src, w, k):
            if k == "import":
                return {"op": k, "cmd": src.choice(IMPORTS), "overwrite": src.coin(), "which": src.below(4), "api": src.coin()}
            o = {"op": k, "cmd": src.choice(sorted(INSPECT)), "args": []}
            ds = [d for d in w.doms if d.confs and d.els]
            chosen = src.choice(ds) if ds else None
            for a in INSPECT[o["cmd"]] if INSPECT[o["cmd"]] != DCP else [DCP]:
                if a == "e":
                    o["args"].append(src.choice(list(w.nodes)))
                elif a == "p":
                    o["args"].append(src.choice(w.vals.leaves).path)
                elif a == "f":
                    o["args"].append("<file>")
                elif a == "d":
                    if not w.doms:
                        return {"op": k, "cmd": "status", "args": []}
                    o["args"].append((chosen or src.choice(w.doms)).name)
                else:
                    d = chosen
                    if d is None:
                        return {"op": k, "cmd": "dumpDomains", "args": []}
                    if a == DCP:
                        o["args"].append(d.name)
                    o["args"].append(src.choice(d.confs).name)
                    if a == DCP:
                        o["args"].append(src.choice(w.lv(src.choice(d.els))))
            return o
        case = pfdom.gen_history(src, profile, tier, extra=extra, prohibited=prohibited)
        case["prohibited"] = prohibited
        case["remote"] = prohibited and src.coin()
        return case

    def run(self, case, ctx):
        kw = {"tuning_allowed": False, "tuning_on": False} if case["prohibited"] else {}
        if case.get("remote"):
            kw["port"] = 49151              # the remote interface is not ruled out, but nothing is to be tuned through it
        r = pfdom.Runner(ctx, case, events=True, **kw)
        w = r.w
        tags, refused, ignored = set(), 0, 0
        for n, o in r.setup():
            what = "operation %d %r (tuning %s)" % (n, o, "on" if w.tuning else "off")
            k = o["op"]
            if k == "inspect":
                f = os.path.join(ctx.dir, "export.xml")
                rep, ev = ctx.run([["cmd", "a", o["cmd"]] + [f if a == "<file>" else a for a in o["args"]], ["rtake"]])
                if not (o["cmd"] in ("getElementBytes", "getElementXML", "showMapping", "getParameter", "listParameters")):
                    expect(rep[0] == "1", "%s: %s", what, rep)
                expect(len(ev) == 1, "%s: the back end was accessed: %s", what, ev[1:])
                tags.add("inspect")
            elif k == "import":
                if w.tuning:
                    continue
                rep, ev = ctx.run([self.import_request(ctx, w, o), ["rtake"]])
                expect(rep[0] == "0" and any(rep[1:]), "%s: %s, expected a refusal", what, rep)
                expect(len(ev) == 1, "%s: the back end was accessed: %s", what, ev[1:])
                refused += 1
                tags.add("refused-import")
            else:
                tuning = w.tuning
                ok, _, steps = r.step(n, o, events=True)
                if k in ("apply", "hset") and tuning:
                    ignored += 1
                    tags.add("ignored-" + k)
                elif not tuning and ok is False and k != "word":
                    refused += 1
                    tags.add("refused-" + k)
                    if k == "tuning" and case["prohibited"]:
                        ignored += 1
            r.observe("after " + what)
        return {"nontrivial": refused and ignored, "tags": tags}

    def import_request(self, ctx, w, o):
        single = "Domain" in o["cmd"] and "Domains" not in o["cmd"]
        if single:
            d = w.doms[o["which"] % len(w.doms)] if w.doms and o["overwrite"] else pfdom.Dom("fresh")
            x = pfdom.domain_xml(w, d)
        else:
            x = pfdom.domains_xml(w) if o["which"] else '<ConfigurableDomains SystemClassName="sys"/>'
        f = o["cmd"].startswith("import")
        arg = ctx.write("import.xml", x) if f else x
        if o["api"]:
            sets = o["cmd"] != "importDomainsXML"
            if single:
                return ["api", "a", "importDomain", arg, 1 if o["overwrite"] else 0, 1 if sets else 0, 1 if f else 0]
            return ["api", "a", "importDomains", arg, 1 if sets else 0, 1 if f else 0]
        return ["cmd", "a", o["cmd"], arg] + (["overwrite"] if single and o["overwrite"] else [])


CHECK = C14
