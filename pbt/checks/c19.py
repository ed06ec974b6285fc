"""C19: no configuration file, however malformed, crashes start-up or import."""
import os, re, shutil
import xml.etree.ElementTree as ET
import pfdom, xmlmut
import pfstruct as ps
from pf import *

# what would only exhaust memory
BIG = re.compile(r'\b(ArrayLength|MaxLength)\s*=\s*("|\')\s*([+-]?)(\d{3,})')


def tame(x):
    x = BIG.sub(lambda m: m.group(0)[:-len(m.group(4))] + ("4" if m.group(4)[0] not in "0" else "0") if len(m.group(4)) <= 20 else m.group(0), x)
    return x


class C19(Check):
    pid = "C19"
    technique = "structure-aware mutation fuzzing of configuration, structure and settings files under sanitizers, with differential starts (strict against tolerant) and a consistency walk after every successful start"
    note = ("Valid packages (configuration, structure, included files, settings) are generated and one or several of their files damaged "
            "structurally and textually, replaced by nothing, a directory or binary data. Each package is started strictly and tolerantly "
            "(failure on settings load / on missing subsystems on and off), some with schema validation. After a successful start every listed "
            "element, domain and configuration is read and exported, and the exported settings must be accepted again. Array and string "
            "lengths are kept small: exhausting memory is not judged.")
    rule = "a damaged package, started both ways"
    quick, thorough = 14000, 200000
    profile = {"doms": (1, 2), "confs": (1, 2), "maxleaves": 8}

    def gen(self, src, tier):
        case, w = pfdom.gen_world(src, self.profile, tier)
        ops = pfdom.gen_setup(src, w, self.profile)
        del ops
        case["settings"] = pfdom.domains_xml(w)
        which = src.weighted([(5, "struct"), (5, "settings"), (2, "conf"), (2, "inc"), (1, "two"), (1, "none"), (2, "plugin")])
        mut = {}
        names = {"two": ["struct", "settings"], "none": [], "plugin": []}.get(which, [which])
        for n in names:
            mut[n] = xmlmut.gen(src, 3)
        case["mut"] = mut
        case["include"] = [src.coin(0.4) for _ in case["st"]["subs"]]
        if which == "inc":
            case["include"][0] = True
        case["gone"] = [src.choice(["struct", "settings", "inc0", "conf"]), src.choice(["", "dir", "bin", "empty"])] if src.coin(0.06) else None
        case["plugin"] = src.choice(["type", "lib", "folder", "entry"]) if which == "plugin" else None
        case["schema"] = src.coin(0.12)
        case["import"] = {"mut": xmlmut.gen(src, 2), "file": src.coin(0.3), "one": src.coin(0.4)} if src.coin(0.4) else None
        return case

    def files(self, case, ctx):
        st, mut = case["st"], case["mut"]
        subs = []
        for i, (s, inc) in enumerate(zip(st["subs"], case["include"])):
            if case["plugin"] == "type":
                s = dict(s, type="Missing")
            x = ps.sub_xml(s)
            if inc:
                y = '<?xml version="1.0"?>\n' + x
                if i == 0 and "inc" in mut:
                    y = tame(xmlmut.apply(y, mut["inc"]))
                ctx.write("inc%d.xml" % i, y)
                x = '<SubsystemInclude Path="inc%d.xml"/>\n' % i
            subs.append(x)
        x = '<?xml version="1.0" encoding="UTF-8"?>\n<SystemClass Name="sys">\n%s</SystemClass>\n' % "".join(subs)
        sp = ctx.write("struct.xml", tame(xmlmut.apply(x, mut["struct"])) if mut.get("struct") else x)
        dp = ctx.write("settings.xml", xmlmut.apply(case["settings"], mut.get("settings", [])))
        x = ps.config_xml(st, ctx.built, sp, dp, port=5000 if case["schema"] else None)
        p = case["plugin"]
        if p == "lib":
            x = x.replace('Plugin Name="', 'Plugin Name="no')
        elif p == "folder":
            x = x.replace('Folder="', 'Folder="/none')
        elif p == "entry":
            # a library that is no plug-in
            x = re.sub(r'<Plugin Name="[^"]*"', '<Plugin Name="libm.so.6"', re.sub(r'Folder="[^"]*"', 'Folder=""', x))
        cp = ctx.write("conf.xml", xmlmut.apply(x, mut.get("conf", [])))
        g = case["gone"]
        if g and os.path.exists(os.path.join(ctx.dir, g[0] + ".xml")):
            f = os.path.join(ctx.dir, g[0] + ".xml")
            os.unlink(f)
            if g[1] == "dir":
                os.mkdir(f)
            elif g[1]:
                with open(f, "wb") as h:
                    h.write(b"" if g[1] == "empty" else bytes(range(256)))
        return cp

    def clean(self, ctx):
        for n in os.listdir(ctx.dir):
            p = os.path.join(ctx.dir, n)
            if os.path.isdir(p):
                shutil.rmtree(p, ignore_errors=True)
            elif n.endswith(".xml"):
                os.unlink(p)

    def start(self, ctx, case, cp, settings, missing):
        q = [["reset"], ["rfault", "failRead", 1, "*"], ["new", "a", cp], ["opt", "a", "noremote", 1], ["opt", "a", "failSettings", settings],
             ["opt", "a", "failMissing", missing]]
        if case["schema"]:
            q += [["opt", "a", "schema", os.path.join(os.environ.get("VERIF_REPO", "/repo"), "schemas")], ["opt", "a", "validate", 1]]
        q += criteria_requests("a", case["crits"]) + [["start", "a"]]
        r = ctx.run(q)
        must(r[:-1], "preparing")
        ok, err = r[-1][0] == "1", r[-1][1] if len(r[-1]) > 1 else ""
        expect(ok or err.strip(), "the start failed without an error message")
        return ok, err

    def run(self, case, ctx):
        self.clean(ctx)
        cp = self.files(case, ctx)
        tags = set()
        out = {}
        for settings, missing in ((1, 1), (0, 1), (0, 0), (1, 0)):
            ok, err = self.start(ctx, case, cp, settings, missing)
            doms = self.consistent(ctx, case, (settings, missing) == (0, 0)) if ok else None
            out[settings, missing] = (ok, doms, err)
        a, b, c, d = out[1, 1], out[0, 1], out[0, 0], out[1, 0]
        # tolerance only adds successes, and changes nothing else
        for strict, mild, what in ((a, b, "settings"), (d, c, "settings"), (a, d, "subsystems"), (b, c, "subsystems")):
            if strict[0]:
                expect(mild[0], "the start succeeds strictly, but fails when missing %s are tolerated: %s", what, mild[2])
                expect(strict[1] == mild[1], "tolerating missing %s changes the domains of a start that succeeds anyway: %s, %s", what, strict[1], mild[1])
            elif what == "settings" and mild[0]:
                expect(mild[1] == [], "the settings are refused (%s), but the tolerant start has domains %s", strict[2], mild[1])
                tags.add("no-settings")
        if not case["mut"] and not case["gone"]:
            expect(c[0], "a start without %s and with tolerance failed: %s", "plug-in" if case["plugin"] else "fault", c[2])
            if case["plugin"]:
                rec = any(s["type"] == "REC" for s in case["st"]["subs"])
                needed = case["plugin"] != "type"
                expect(not (a[0] and needed), "the plug-in library is missing, but the strict start succeeded")
                if case["plugin"] == "type":
                    expect(not a[0], "no plug-in has subsystem type Missing, but the strict start succeeded")
                # the schemas allow no settings of whole subsystems
                expect(case["schema"] or len(c[1]) == case["settings"].count("<ConfigurableDomain "), "domains were lost with the plug-in: %s; strictly: %s", c[1], d[2])
                tags.add("virtual" if rec else "plugin")
            else:
                expect(a[0] or case["schema"], "a valid package was refused: %s", a[2])
                tags.add("valid")
        elif set(case["mut"]) <= {"settings"} and not (case["gone"] and case["gone"][0] != "settings") and not case["plugin"]:
            expect(b[0], "only the settings are damaged, but the start fails although that is tolerated: %s", b[2])
        tags.add("started" if c[0] else "refused")
        self.clean(ctx)
        return {"nontrivial": bool(case["mut"] or case["gone"] or case["plugin"]), "tags": tags}

    def consistent(self, ctx, case, deep):
        """Everything the instance lists can be read; returns the names of the domains."""
        x = ctx.run([["cmd", "a", "getDomainsWithSettingsXML"]])[0]
        expect(x[0] == "1", "after a successful start the settings cannot be exported: %s", x)
        root = parse(x[1], "the exported settings")
        doms = [d.get("Name", "") for d in root.findall("ConfigurableDomain")]
        if not deep:
            return doms
        q = [["cmd", "a", c] for c in ("status", "listDomains", "dumpDomains", "listCriteria", "getSystemClassXML", "listRogueElements",
                                       "listConflictingElements", "listAssociatedElements")]
        must(ctx.run(q), "looking at the instance")
        # elements
        r = ctx.run([["cmd", "a", "listElements", "/"]])[0]
        expect(r[0] == "1", "listElements / fails: %s", r)
        n = r[1].strip().split("\n")[0].split(" [")[0].strip().lstrip("/")
        todo = ["/" + n] if n and "/" not in n else []
        seen = 0
        while todo and seen < 60:
            p = todo.pop()
            seen += 1
            r = ctx.run([["hpath", "a", p, "info"]])[0]
            if r[0] != "1" and p == "/SystemClass":
                # a system without name
                break
            expect(r[0] == "1", "%s is listed but has no handle: %s", p, r)
            leaf = r[5 + 0] == "1"
            kids = r[10:]
            q = [["cmd", "a", n, p] for n in ("getElementXML", "getElementStructureXML", "showProperties", "dumpElement", "getElementBytes",
                                              "getElementSize", "listElements", "listParameters", "listBelongingDomains", "listAssociatedDomains")]
            if p.count("/") > 1:
                q.append(["cmd", "a", "showMapping", p])
            if leaf:
                q.append(["cmd", "a", "getParameter", p])
                q.append(["hpath", "a", p, "getString" if r[7] != "1" else "getStringArray"])
            rep = ctx.run(q)
            for a, b in zip(q, rep):
                if a[0] == "hpath" and "Unsupported conversion" in str(b):
                    # an array length where none is possible
                    continue
                expect(b[0] == "1", "%s is listed but cannot be read: %s gives %s", p, a[2:], b)
            parse(rep[0][1], "the settings of " + p)
            parse(rep[1][1], "the structure of " + p)
            todo += [p + "/" + k for k in kids if k and "/" not in k and k == k.strip() and "\n" not in k]
        # domains
        q = []
        for d in root.findall("ConfigurableDomain"):
            n = d.get("Name", "")
            if not n or doms.count(n) > 1:
                # can only be listed
                continue
            q.append(["api", "a", "getSequenceAwareness", n])
            els = [e.get("Path") for e in d.findall("ConfigurableElements/ConfigurableElement")]
            for c in d.findall("Configurations/Configuration"):
                if not c.get("Name"):
                    continue
                q.append(["api", "a", "getRule", n, c.get("Name", "")])
                for e in els:
                    l = [m for m in self.first_leaf(ctx, e)]
                    for m in l:
                        q.append(["api", "a", "getConfigurationParameter", n, c.get("Name", ""), m])
        for a, b in zip(q, ctx.run(q)):
            if a[2] == "getRule" and "No rule" in str(b):
                continue
            expect(b[0] == "1" or a[2] == "getRule", "%s fails: %s", a[2:], b)
        imp = case["import"]
        q = [["cmd", "a", "setTuningMode", "on"]]
        if ctx.run(q)[0][0] == "1":
            if not case["schema"] and not {"struct", "inc"} & set(case["mut"]) and not case["gone"]:
                # damage can make bits overlap or names equal; the schemas know neither instances without domains nor domains without configurations
                r = ctx.run([["api", "a", "importDomains", x[1], 1, 0], ["cmd", "a", "getDomainsWithSettingsXML"]])
                # parameters of domains without any settings are all zero, legal or not
                expect(r[0][0] == "1" or "settings" in case["mut"], "the exported settings are refused: %s\n%s", r[0], x[1])
                names = [doms] + [[c.get("Name", "") for c in d.findall("Configurations/Configuration")] for d in root.findall("ConfigurableDomain")]
                # only the schemas refuse equal names, and nothing missing ones
                named = all(len(set(l)) == len(l) and "" not in l for l in names)
                # domains have no descriptions in the file format
                expect(plain(r[1]) == plain(x) or r[0][0] != "1" or not named, "the exported settings are exported differently after being imported:\n%s\n%s", x[1], r[1][1])
            if imp:
                y = case["settings"]
                if imp["one"]:
                    m = re.search(r"<ConfigurableDomain .*?</ConfigurableDomain>", y)
                    y = m.group() if m else y
                y = xmlmut.apply(y, imp["mut"])
                if imp["file"]:
                    y = ctx.write("import.xml", y)
                if imp["one"]:
                    req = ["api", "a", "importDomain", y, 1, 1, 1 if imp["file"] else 0]
                else:
                    req = ["api", "a", "importDomains", y, 1, 1 if imp["file"] else 0]
                r = ctx.run([req, ["cmd", "a", "getDomainsWithSettingsXML"], ["cmd", "a", "status"]])
                expect(r[0][0] == "1" or any(r[0][1:]), "the import failed without a message")
                expect(r[1][0] == r[2][0] == "1", "after an import the settings cannot be exported: %s", r[1])
                parse(r[1][1], "the settings exported after an import")
        return doms

    def first_leaf(self, ctx, path):
        for _ in range(20):
            r = ctx.run([["hpath", "a", path, "info"]])[0]
            if r[0] != "1":
                return
            if r[5] == "1":
                yield path
                return
            if len(r) < 11 or not r[10] or "/" in r[10]:
                return
            path += "/" + r[10]


def plain(r):
    return [re.sub(r' Description="[^"]*"', "", t) for t in r]


def parse(x, what):
    try:
        return ET.fromstring(x.encode("utf-8", "surrogateescape"))
    except ET.ParseError as ex:
        raise Violation("%s are no well-formed document (%s):\n%s" % (what, ex, x[:1500]))


CHECK = C19
