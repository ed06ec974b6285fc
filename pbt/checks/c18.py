"""C18: no command or typed call, however malformed, harms the instance."""
import re
import pfdom, xmlmut
import pfstruct as ps
from pf import *

# command: (least number of arguments, what they are)
CMDS = {
    "version": (0, ""), "status": (0, ""), "setTuningMode": (1, "on"), "getTuningMode": (0, ""), "setValueSpace": (1, "space"),
    "getValueSpace": (0, ""), "setOutputRawFormat": (1, "fmt"), "getOutputRawFormat": (0, ""), "setAutoSync": (1, "on"), "getAutoSync": (0, ""),
    "sync": (0, ""), "listCriteria": (0, "csv"), "listDomains": (0, ""), "dumpDomains": (0, ""), "createDomain": (1, "newdom"),
    "deleteDomain": (1, "dom"), "deleteAllDomains": (0, ""), "renameDomain": (2, "dom newdom"), "setSequenceAwareness": (2, "dom bool"),
    "getSequenceAwareness": (1, "dom"), "listDomainElements": (1, "dom"), "addElement": (2, "dom elem"), "removeElement": (2, "dom delem"),
    "splitDomain": (2, "dom delem"), "listConfigurations": (1, "dom"), "createConfiguration": (2, "dom newconf"),
    "deleteConfiguration": (2, "dom conf"), "renameConfiguration": (3, "dom conf newconf"), "saveConfiguration": (2, "dom conf"),
    "restoreConfiguration": (2, "dom conf"), "setElementSequence": (3, "dom conf delem delem"), "getElementSequence": (2, "dom conf"),
    "setRule": (3, "dom conf rule"), "clearRule": (2, "dom conf"), "getRule": (2, "dom conf"), "listElements": (1, "elem"),
    "listParameters": (1, "elem"), "getElementStructureXML": (1, "elem"), "getElementBytes": (1, "elem"), "setElementBytes": (2, "elem bytes"),
    "getElementXML": (1, "elem"), "setElementXML": (2, "elem elemxml"), "dumpElement": (1, "elem"), "getElementSize": (1, "elem"),
    "showProperties": (1, "elem"), "getParameter": (1, "par"), "setParameter": (2, "par val"), "listBelongingDomains": (1, "elem"),
    "listAssociatedDomains": (1, "elem"), "getConfigurationParameter": (3, "dom conf par"),
    "setConfigurationParameter": (4, "dom conf par val"), "showMapping": (1, "elem"), "listAssociatedElements": (0, ""),
    "listConflictingElements": (0, ""), "listRogueElements": (0, ""), "exportDomainsXML": (1, "file"), "importDomainsXML": (1, "src"),
    "exportDomainsWithSettingsXML": (1, "file"), "exportDomainWithSettingsXML": (2, "dom file"), "importDomainsWithSettingsXML": (1, "src"),
    "importDomainWithSettingsXML": (1, "src1 overwrite"), "getDomainsWithSettingsXML": (0, ""), "getDomainWithSettingsXML": (1, "dom"),
    "setDomainsWithSettingsXML": (1, "domsxml"), "setDomainWithSettingsXML": (1, "domxml overwrite"), "getSystemClassXML": (0, ""),
    "getDomainsXML": (0, ""), "help": (0, ""),
}
HEAVY = {"setParameter": 8, "setElementXML": 9, "setElementBytes": 9, "setDomainsWithSettingsXML": 5, "setDomainWithSettingsXML": 6,
         "setRule": 9, "setConfigurationParameter": 6, "setElementSequence": 4, "addElement": 4, "splitDomain": 4, "removeElement": 3,
         "createDomain": 3, "createConfiguration": 3, "importDomainsWithSettingsXML": 3, "importDomainWithSettingsXML": 3, "renameDomain": 3,
         "renameConfiguration": 3, "setSequenceAwareness": 3, "getConfigurationParameter": 3, "getParameter": 3, "getElementBytes": 2,
         "exportDomainWithSettingsXML": 2, "exportDomainsWithSettingsXML": 2}
API = {"setTuningMode": "flag", "setValueSpace": "flag", "setOutputRawFormat": "flag", "setAutoSync": "flag", "sync": "",
       "setParameter": "par val", "getParameter": "par", "setConfigurationParameter": "dom conf par val",
       "getConfigurationParameter": "dom conf par", "getParameterMapping": "elem", "createDomain": "newdom", "deleteDomain": "dom",
       "renameDomain": "dom newdom", "setSequenceAwareness": "dom flag", "createConfiguration": "dom newconf",
       "deleteConfiguration": "dom conf", "renameConfiguration": "dom conf newconf", "saveConfiguration": "dom conf",
       "restoreConfiguration": "dom conf", "addElement": "dom elem", "removeElement": "dom delem", "splitDomain": "dom delem",
       "setElementSequence": "dom conf delem delem", "setRule": "dom conf rule", "getRule": "dom conf", "clearRule": "dom conf",
       "importDomains": "domsxml flag no", "importDomain": "domxml flag flag no", "exportDomains": "file flag no",
       "exportDomain": "file dom flag no"}
HANDLE = {"setBoolean": "bit", "setInteger": "uint", "setSignedInteger": "sint", "setDouble": "dbl", "setString": "val",
          "setBooleanArray": "bit*", "setIntegerArray": "uint*", "setSignedIntegerArray": "sint*", "setDoubleArray": "dbl*",
          "setStringArray": "val*", "getBoolean": "", "getInteger": "", "getSignedInteger": "", "getDouble": "", "getString": "",
          "getBooleanArray": "", "getIntegerArray": "", "getSignedIntegerArray": "", "getDoubleArray": "", "getStringArray": "",
          "getBytes": "", "setBytes": "raw", "getXML": "", "setXML": "elemxml", "info": "", "mapping": "word", "structure": ""}
BADINDEX = re.compile(r"/(1abc|0x0|-1|99999999999|4294967296)$")
READERS = re.compile("get|list|dump|show|help|version|status|export|info|mapping|structure")

WORDS = ["", " ", "/", "//", "0", "1", "-1", "on", "off", "true", "x y", "\"", "'", "\\", "%s%n%d", "A", "<a/>", "<", "&amp;", "\x01", "\n", "\t",
         "\udcff\udcfe", "\u00e9", "None", "<none>", "[x]", "a,b", "0x", "0x0", "99999999999999999999", "nan", "1e999", "..", "*", "{", "}"]


class Gen:
    def __init__(self, src, w):
        self.src, self.w = src, w

    def arg(self, kind, got):
        src, w = self.src, self.w
        if kind == "dom":
            return pfdom.pick_dom(src, w, 0.12)
        if kind == "newdom":
            return src.choice(pfdom.DNAMES)
        if kind == "conf":
            d = w.dom(got[0]) if got else None
            return src.choice(d.confs).name if d and d.confs and not src.coin(0.1) else src.choice(pfdom.CNAMES)
        if kind == "newconf":
            return src.choice(pfdom.CNAMES)
        if kind == "elem":
            return self.path(src.choice(list(w.nodes.values())))
        if kind == "delem":
            d = w.dom(got[0]) if got else None
            if d and d.els and not src.coin(0.2):
                return src.choice(d.els)
            return self.arg("elem", got)
        if kind == "par":
            l = src.choice(w.vals.leaves)
            self.leaf = l
            return self.path(l)
        if kind == "val":
            l = getattr(self, "leaf", None) or src.choice(w.vals.leaves)
            return ps.gen_text(src, l, src.coin(0.3), 0.5)
        if kind == "rule":
            t = pfdom.rule_text(pfdom.gen_rule(src, list(w.crits.values())), lambda: " " if src.coin(0.1) else "")
            return self.damage(t) if src.coin(0.5) else t
        if kind in ("on", "bool", "space", "fmt", "csv", "overwrite", "no", "flag"):
            return src.choice({"on": ["on", "off"], "bool": ["true", "false"], "space": ["raw", "real"], "fmt": ["hex", "dec"],
                               "csv": ["CSV", "XML"], "overwrite": ["overwrite"], "no": ["0"], "flag": ["0", "1"]}[kind])
        if kind == "elemxml":
            n = src.choice(list(w.nodes.values()))
            if got and got[0] in w.nodes and src.coin(0.9):
                n = w.nodes[got[0]]
            v = w.vals.copy()
            for l in n.leaves():
                t = ps.gen_text(src, l, False, 0.15)
                v.v[l.path] = [t]
            x = ps.tree_xml(ps.settings_tree(n, lambda l: v.v[l.path][0]))
            return {"xml": x, "mut": xmlmut.gen(src, 2) if src.coin(0.7) else []}
        if kind in ("domsxml", "domxml", "src", "src1"):
            d = src.choice(w.doms) if w.doms else None
            if kind in ("domsxml", "src") or d is None:
                x = pfdom.domains_xml(w)
            else:
                x = pfdom.domain_xml(w, d, True)
            return {"xml": x, "mut": xmlmut.gen(src, 2) if src.coin(0.75) else [], "file": kind in ("src", "src1")}
        if kind == "file":
            return src.choice(["@/out.xml", "@", "@/none/out.xml", "@/" + "n" * 300, "out.xml", "@/a b\u00e9.xml", ""])
        if kind == "bit":
            return src.choice(["0", "1"])
        if kind == "uint":
            return str(src.choice([0, 1, 127, 128, 255, 256, 65535, (1 << 31) - 1, 1 << 31, (1 << 32) - 1]))
        if kind == "sint":
            return str(src.choice([0, 1, -1, 127, 128, -128, -129, 32767, -32768, (1 << 31) - 1, -(1 << 31)]))
        if kind == "dbl":
            return src.choice(["0", "1", "-1.5", "nan", "inf", "-inf", "1e308", "1e-308", "3.5e38", "127", "0.000001"])
        if kind == "word":
            return src.choice(WORDS)
        raise AssertionError(kind)

    def path(self, n):
        src = self.src
        p = n.path
        if src.coin(0.2):
            p = src.choice([p + "/", p + "/0", p + "/1abc", p + "/-1", p + "/99999999999", p + "/0x0", p + "/1abc", p + "/ 0", p + "/+1", p + "/4294967296", p[1:], p.upper(),
                            "/" + p, p.replace("/", "//"), "/sys", "/", "", "/sys/", p + "x", p + "/x", "/sys/..", p + "/0x0", p + "/00"])
        return p

    def damage(self, t):
        src = self.src
        for _ in range(src.int(1, 3)):
            i = src.below(len(t) + 1)
            k = src.int(0, 3)
            if k == 0:
                t = t[:i] + t[i + 1:]
            elif k == 1:
                t = t[:i] + src.choice(WORDS) + t[i:]
            elif k == 2:
                t = t[:i]
            else:
                j = src.below(len(t) + 1)
                t = t[:i] + t[j:]
        return t

    def raw(self, n):
        """Byte values for an element."""
        src = self.src
        size = n.size()
        k = src.int(0, 5)
        if k == 4:
            size += src.choice([-1, 1, 100])
        if k == 5:
            size = src.choice([0, 1, 5])
        return [src.choice(["0", "0xff", "0x%02x" % src.below(256), "%d" % src.below(256), "1"]) for _ in range(max(0, size))]

    def args(self, kinds, rest=()):
        src, out = self.src, []
        for k in kinds:
            rep = k.endswith("*")
            k = k.rstrip("*")
            if k == "bytes":
                n = self.w.nodes.get(out[0]) if out else None
                out += self.raw(n or src.choice(list(self.w.nodes.values())))
                if src.coin(0.2) and out:
                    out[src.below(len(out))] = src.choice(["256", "-1", "x", "", "0x100", "1 2", "0xfg", "1.5"])
                continue
            for _ in range(src.int(0, 6) if rep else 1):
                out.append(self.arg(k, out or list(rest)))
        if src.coin(0.3):
            self.corrupt(out)
        return out

    def corrupt(self, out):
        src = self.src
        k = src.int(0, 5)
        i = src.below(len(out) + 1)
        if k == 0 and out:
            del out[min(i, len(out) - 1)]
        elif k == 1:
            out.insert(i, src.choice(WORDS))
        elif k == 2 and out:
            out[min(i, len(out) - 1)] = src.choice(WORDS)
        elif k == 3 and out:
            out[min(i, len(out) - 1)] = {"rep": [src.choice(["A", "/", "1 ", "All{", "<a>", "0 ", "/a", "}", "\udcff", " "]),
                                                src.choice([64, 300, 5000, 100000])]}
        elif k == 4 and out:
            j = min(i, len(out) - 1)
            if isinstance(out[j], str):
                out[j] = self.damage(out[j])
        else:
            del out[i:]


def gen_fuzz(src, w):
    """One call: {"via","name","args"[,"path"]}."""
    g = Gen(src, w)
    via = src.weighted([(12, "cmd"), (3, "api"), (5, "h"), (1, "none")])
    if via == "none":
        return {"via": "cmd", "name": src.choice(["", "Help", "setparameter", "status ", "nothing", "\n", "setParameter\0x", "A" * 1000, "get"]),
                "args": [src.choice(WORDS) for _ in range(src.int(0, 3))]}
    if via == "cmd":
        name = src.weighted([(HEAVY.get(k, 1), k) for k in CMDS])
        return {"via": "cmd", "name": name, "args": g.args(CMDS[name][1].split())}
    if via == "api":
        name = src.choice(list(API))
        g2 = g.args(API[name].split())
        return {"via": "api", "name": name, "args": g2}
    name = src.choice(list(HANDLE))
    n = src.choice(list(w.nodes.values()))
    g.leaf = n if n.is_leaf() else None
    if HANDLE[name] == "raw":
        a = g.raw(n)
    elif HANDLE[name] == "elemxml":
        a = [g.arg("elemxml", [n.path])]
    else:
        a = []
        for k in HANDLE[name].split():
            for _ in range(src.weighted([(3, max(1, n.arr)), (2, src.int(0, 6))]) if k.endswith("*") else 1):
                a.append(g.arg(k.rstrip("*"), []))
    return {"via": "h", "name": name, "path": n.path, "args": a}


class C18(Check):
    pid = "C18"
    technique = "grammar-based fuzzing of commands, connector calls and handle calls on generated instances under sanitizers, with a complete state comparison around every call"
    note = ("Calls are drawn from the command table with arguments of the right kind, then damaged: removed, added, replaced by odd words, enormous, "
            "binary; documents are damaged structurally and textually. The state is everything the instance exports (all domains with settings, "
            "all values, status). Calls that fail and calls that only look must leave it unchanged; those that succeed only have to leave it "
            "exportable (other checks decide their effect). Files stay inside the scratch directory.")
    rule = "at least one call refused on its arguments' contents and one accepted that changed the state"
    quick, thorough = 12000, 150000
    profile = {"doms": (1, 3), "confs": (1, 3), "maxleaves": 8}

    def gen(self, src, tier):
        case, w = pfdom.gen_world(src, self.profile, tier)
        case["ops"] = pfdom.gen_setup(src, w, self.profile)
        case["setup"], case["file"] = len(case["ops"]), False
        w.tuning = True
        case["tuning"] = src.coin(0.9)
        case["fail"] = src.choice(sorted(w.all_objects()) or [""]) if src.coin(0.1) else ""
        case["sync"] = src.coin(0.5)
        case["fuzz"] = src.list(1, 25, lambda i: gen_fuzz(src, w), avg=12)
        return case

    def text(self, a, ctx, name, k):
        """An argument as it is sent."""
        if isinstance(a, dict):
            if "rep" in a:
                return (a["rep"][0] * a["rep"][1])[:a["rep"][1] * 2]
            x = xmlmut.apply(a["xml"], a["mut"])
            if a.get("file"):
                return ctx.write("in%d.xml" % (k % 4), x)
            return x
        return a

    def request(self, o, ctx, k):
        args = [self.text(a, ctx, o["name"], k) for a in o["args"]]
        if "export" in o["name"] or "import" in o["name"]:
            # files stay in the scratch directory
            for i, a in enumerate(args):
                if a.startswith("<") or o["args"][i].__class__ is dict and o["args"][i].get("file"):
                    continue
                a = a.replace("..", "__")
                if a.startswith("@"):
                    a = ctx.dir + "/sub" + a[1:]
                else:
                    a = a.replace("/", "_").replace("\\", "_").replace(":", "_")
                args[i] = a
        if o["via"] == "cmd":
            return ["cmd", "a", o["name"]] + args
        if o["via"] == "api":
            kinds = API[o["name"]].split()
            args += ["x"] * (len(kinds) - len(args))
            if o["name"].startswith("import") or o["name"].startswith("export"):
                # never from or to files here
                args = args[:len(kinds)]
                args[-1] = "0"
            return ["api", "a", o["name"]] + args
        if o["name"] == "setBytes":
            b = bytes(int(x, 0) & 255 for x in args)
            return ["hpath", "a", o["path"], "setBytes", b.decode("utf-8", "surrogateescape")]
        return ["hpath", "a", o["path"], o["name"]] + args

    def run(self, case, ctx):
        import os, shutil
        os.makedirs(ctx.dir + "/sub", exist_ok=True)
        r = pfdom.Runner(ctx, case)
        for n, o in r.setup():
            pass
        q = [["api", "a", "setAutoSync", 0]] if case["sync"] else []
        if not case["tuning"]:
            q.append(["cmd", "a", "setTuningMode", "off"])
        if case["fail"]:
            q.append(["rfault", "failWrite", 1, case["fail"]])
        snap = [["cmd", "a", "getDomainsWithSettingsXML"], ["cmd", "a", "getElementXML", "/sys"], ["cmd", "a", "status"]]
        q += snap
        reqs = [self.request(o, ctx, k) for k, o in enumerate(case["fuzz"])]
        for x in reqs:
            q += [x] + snap
        rep = ctx.run(q)
        rep = rep[len(q) - 4 * len(reqs) - 3:]
        before, rep = rep[:3], rep[3:]
        tags = set()
        refused = changed = False
        for k, (o, x) in enumerate(zip(case["fuzz"], reqs)):
            one, after = rep[4 * k], rep[4 * k + 1:4 * k + 4]
            what = "call %d %s" % (k, str(x)[:1000])
            if one[0] == "?":
                # the harness could not make the call
                continue
            ok = one[0] == "1"
            same = before == after
            if not ok:
                expect(o["via"] == "h" or any(one[1:]), "%s: failed without a message", what)
                if not same and not any("write refused by" in t for t in one[1:]) and not self.lost(o, before, after):
                    raise Violation("%s: failed (%s) and changed the state:\n%s" % (what, one[1:], diff(before, after)))
                refused = True
                tags.add("refused")
            if o["via"] == "cmd":
                if o["name"] not in CMDS:
                    expect(not ok, "%s: an unknown command succeeded", what)
                elif len(o["args"]) < CMDS[o["name"]][0]:
                    expect(not ok, "%s: succeeded without its arguments", what)
            if o["name"] in ("getParameter", "setParameter") and o["args"] and isinstance(o["args"][0], str):
                expect(not (ok and BADINDEX.search(o["args"][0])), "%s: an item was found without a proper index", what)
            if READERS.match(o["name"]):
                expect(same, "%s: a request for information changed the state:\n%s", what, diff(before, after))
            if ok and not same:
                changed = True
                tags.add("changed")
            before = after
        shutil.rmtree(ctx.dir + "/sub", ignore_errors=True)
        return {"nontrivial": refused and changed, "tags": tags}

    def lost(self, o, before, after):
        """A failed import of all domains leaves none."""
        if o["name"] in ("setDomainsWithSettingsXML", "importDomainsXML", "importDomainsWithSettingsXML", "importDomains"):
            return before[1] == after[1] and "<ConfigurableDomain " not in after[0][1]
        return False


def diff(a, b):
    out = []
    for x, y in zip(a, b):
        if x != y:
            xl, yl = "\n".join(x).split("\n"), "\n".join(y).split("\n")
            out += ["- " + t for t in xl if t not in yl][:8] + ["+ " + t for t in yl if t not in xl][:8]
    return "\n".join(out)


CHECK = C18
