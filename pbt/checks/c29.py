"""C29: schema validation refuses what the schemas refuse, and changes nothing else."""
import os, re, shutil
import pfdom, xmlmut, xsd
import pfstruct as ps
from pf import *
from checks.c19 import tame

SCHEMAS = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "schemas")
NAME = re.compile(r"[A-Za-z_][\w.-]*$", re.A)
# what a reader that looks only at what it needs does not mind
SOFT = ["attr", "double", "bool", "order", "text", "element", "drop", "comment", "blank", "hex"]


def soften(x, m):
    """A small change of a document that the schemas may mind."""
    how, at, to = m
    tags = [t for t in xmlmut.TAG.finditer(x) if t.group()[1:2] not in ("/", "?", "!")]
    t = xmlmut.pick(tags, at)
    if t is None:
        return x
    end = t.end() - (2 if t.group().endswith("/>") else 1)
    if how == "attr":
        return x[:end] + ' %s="%s"' % (["Extra", "Comment", "Unit", "Description", "Mapping", "xml:id", "Abstraction"][to % 7], "v") + x[end:]
    if how in ("element", "text", "comment"):
        what = {"element": ["<Extra/>", "<Description>x</Description>", "<ValuePair/>"][to % 3], "text": ["x", "&#160;", "0"][to % 3],
                "comment": ["<!-- c -->", "<?p i?>", "\n\t "][to % 3]}[how]
        els = xmlmut.elements(x)
        e = xmlmut.pick(els, at)
        if how == "comment" and re.match(r"<[^<>]*>[^<>]+</", x[e[0]:e[1]]):
            return x
        p = e[1] if e[0] > 0 and to % 2 and e[1] < els[0][1] else x.index(">", e[0]) + 1
        if x[p - 2:p] == "/>" and p != e[1]:
            return x
        return x[:p] + what + x[p:] if x[p - 2:p] != "/>" or p == e[1] and p < els[0][1] else x
    attrs = [a for a in xmlmut.ATTR.finditer(x) if a.group(1) not in ("version", "encoding")]
    a = xmlmut.pick(attrs, at)
    if a is None:
        return x
    v = a.group(2)[1:-1]
    if how == "drop":
        return x[:a.start()] + x[a.end():]
    if how == "double":
        return x[:a.start(2)] + '"%s "' % v + x[a.end(2):]
    if how == "blank":
        return x[:a.start(2)] + '""' + x[a.end(2):]
    if how == "hex" and re.match(r"\d+$", v):
        return x[:a.start(2)] + '"%s"' % ["0x%x" % int(v), "0" + v, "+" + v, v + ".0"][to % 4] + x[a.end(2):]
    if how == "bool" and v in ("true", "false"):
        return x[:a.start(2)] + '"%s"' % ["1", "0", "yes", "True"][to % 4] + x[a.end(2):]
    if how == "order":
        e = [(b, c) for b, c in xmlmut.elements(x)]
        i = xmlmut.pick(range(len(e)), at)
        nxt = [f for f in e if f[0] >= e[i][1] and "<" not in x[e[i][1]:f[0]]]
        if nxt:
            f = nxt[0]
            return x[:e[i][0]] + x[f[0]:f[1]] + x[e[i][1]:f[0]] + x[e[i][0]:e[i][1]] + x[f[1]:]
    return x


class C29(Check):
    pid = "C29"
    technique = ("differential property-based testing: generated packages and imports, damaged by small changes that a reader may not mind and by structural mutations, are started and imported with "
                 "and without schema validation, against validation of each document with the shipped schemas by libxml2 called directly")
    note = ("Documents are those of the start (configuration, structure, included files, settings, all with XIncludes resolved) and of imports. "
            "The folder of the schemas is the shipped one, a copy under an unusual name, or one that lacks a schema or has an unreadable one. "
            "Element settings set as XML have no schemas of their own and are left out.")
    rule = "a package or an import that is accepted without validation and refused with it, or one accepted by both with settings"
    quick, thorough = 3000, 40000
    profile = {"doms": (1, 2), "confs": (1, 2), "maxleaves": 6}

    def gen(self, src, tier):
        case, w = pfdom.gen_world(src, self.profile, tier)
        pfdom.gen_setup(src, w, self.profile)
        if src.coin(0.8):
            # what the schemas have room for
            for i, d in enumerate(w.doms):
                d.name = d.name if NAME.match(d.name) else "D_%d" % i
                for j, c in enumerate(d.confs):
                    c.name = c.name if NAME.match(c.name) else "c_%d" % j
            w.doms = [d for d in w.doms if d.confs and all(e.count("/") > 2 for e in d.els)] or w.doms[:1]
        if not w.doms and src.coin(0.9):
            w.doms = [pfdom.Dom("D0")]
            w.doms[0].confs = [pfdom.Conf("c0")]
        case["settings"] = pfdom.domains_xml(w)
        case["one"] = pfdom.domain_xml(w, w.doms[0]) if w.doms else None
        case["include"] = [src.coin(0.4) for _ in case["st"]["subs"]]
        case["xi"] = [src.coin(0.25) if w.doms else False, src.coin(0.25)]
        case["mut"] = {}
        for n in src.choice([[], ["settings"], ["settings"], ["struct"], ["conf"], ["inc0"], ["struct", "settings"]]):
            case["mut"][n] = self.damage(src)
        case["imports"] = [{"one": src.coin(), "mut": self.damage(src) if src.coin(0.7) else [], "file": src.coin(0.3), "over": src.coin(0.7)}
                           for _ in range(src.int(0, 3))]
        case["schemas"] = src.weighted([(8, "shipped"), (2, "copy"), (2, "lacks"), (1, "broken"), (1, "none")])
        case["which"] = src.choice(["ParameterFrameworkConfiguration", "SystemClass", "Subsystem", "ConfigurableDomains", "ConfigurableDomain", "Parameter"])
        case["folder"] = src.choice(["s", "sch emas", "sch\u00e9mas", "a+b", "x/"])
        return case

    def damage(self, src):
        if src.coin(0.75):
            return [["soft", src.choice(SOFT), src.below(1 << 16), src.below(12)] for _ in range(1 if src.coin(0.8) else 2)]
        return xmlmut.gen(src, 1)

    def apply(self, x, muts):
        for m in muts:
            x = soften(x, m[1:]) if m[0] == "soft" else xmlmut.apply(x, [m])
        return tame(x) if muts else x

    # ------------------------------------------------------------ documents
    def files(self, case, ctx):
        """Path of the configuration and of the documents that a start reads, settings last."""
        st, mut = case["st"], case["mut"]
        subs, used = [], []
        for i, (s, inc) in enumerate(zip(st["subs"], case["include"])):
            x = ps.sub_xml(s)
            if inc:
                y = self.apply('<?xml version="1.0"?>\n' + x, mut.get("inc%d" % i, []))
                used.append(ctx.write("inc%d.xml" % i, y))
                x = '<SubsystemInclude Path="inc%d.xml"/>\n' % i
            elif case["xi"][1]:
                ctx.write("xi%d.xml" % i, '<?xml version="1.0"?>\n' + x)
                x = '<xi:include xmlns:xi="http://www.w3.org/2001/XInclude" href="xi%d.xml"/>\n' % i
            subs.append(x)
        x = '<?xml version="1.0" encoding="UTF-8"?>\n<SystemClass Name="sys">\n%s</SystemClass>\n' % "".join(subs)
        sp = ctx.write("struct.xml", self.apply(x, mut.get("struct", [])))
        x = case["settings"]
        if case["xi"][0]:
            ctx.write("dom.xml", '<?xml version="1.0"?>\n' + case["one"])
            x = x.replace(case["one"], '<xi:include xmlns:xi="http://www.w3.org/2001/XInclude" href="dom.xml"/>', 1)
        dp = ctx.write("settings.xml", self.apply(x, mut.get("settings", [])))
        cp = ctx.write("conf.xml", self.apply(ps.config_xml(st, ctx.built, sp, dp, port=5000), mut.get("conf", [])))
        return cp, sp, dp

    def schemas(self, case, ctx):
        """(folder, roots whose schema cannot be used)"""
        k = case["schemas"]
        if k == "shipped":
            return SCHEMAS, set()
        if k == "none":
            return os.path.join(ctx.dir, "nowhere"), None
        d = os.path.join(ctx.dir, "sets", case["folder"])
        shutil.rmtree(os.path.join(ctx.dir, "sets"), ignore_errors=True)
        shutil.copytree(SCHEMAS, d)
        if k == "copy":
            return d, set()
        f = os.path.join(d, case["which"] + ".xsd")
        if k == "lacks":
            os.unlink(f)
        else:
            with open(f, "w") as h:
                h.write("<xs:schema xmlns:xs='http://www.w3.org/2001/XMLSchema'><xs:element")
        return d, d

    # ------------------------------------------------------------ running
    def start(self, ctx, case, cp, strict, validate, folder):
        q = [["reset"], ["rfault", "failRead", 1, "*"], ["new", "a", cp], ["opt", "a", "noremote", 1], ["opt", "a", "failSettings", strict]]
        if validate:
            # the order does not matter
            q += [["opt", "a", "schema", folder], ["opt", "a", "validate", 1]][::1 if strict else -1]
        elif strict:
            q += [["opt", "a", "schema", folder]]
        q += criteria_requests("a", case["crits"]) + [["start", "a"], ["getopts", "a"]]
        r = ctx.run(q)
        must(r[:-2], "preparing")
        ok, err = r[-2][0] == "1", r[-2][1] if len(r[-2]) > 1 else ""
        expect(ok or err.strip(), "the start failed without an error message")
        expect(r[-1][4] == ("1" if validate else "0") and (not validate or r[-1][5] == folder), "the options are told as %s", r[-1])
        return ok, err

    def state(self, ctx):
        q = [["cmd", "a", n] for n in ("getSystemClassXML", "getDomainsWithSettingsXML", "listDomains", "dumpDomains", "status")] + \
            [["cmd", "a", "getElementXML", "/sys"], ["cmd", "a", "getElementBytes", "/sys"]]
        return ctx.run(q)

    def domains(self, ctx):
        r = ctx.run([["cmd", "a", "listDomains"]])[0]
        expect(r[0] == "1", "listDomains: %s", r)
        return r[1].split("\n")[:-1]

    def run(self, case, ctx):
        cp, sp, dp = self.files(case, ctx)
        folder, lacks = self.schemas(case, ctx)
        tags = {"schemas-" + case["schemas"]}

        def bad(path=None, text=None):
            """What the schemas in use mind about a document."""
            if lacks is None:
                return ["no schemas"]
            return xsd.errors_in(path, text, folder if lacks else SCHEMAS)
        plain = {}
        for strict in (1, 0):
            ok, err = self.start(ctx, case, cp, strict, False, folder)
            plain[strict] = (ok, self.state(ctx) if ok else None, err)
        base = []
        if plain[0][0]:
            # all of these were read
            base = bad(cp) or bad(sp)
            for p in xsd.included(sp):
                base = base or bad(p)
        sets = bad(dp) if self.names_settings(cp) else []
        for strict in (1, 0):
            ok, err = self.start(ctx, case, cp, strict, True, folder)
            was = plain[strict]
            if not was[0]:
                expect(not ok, "refused without validation (%s), but not with it", was[2])
                tags.add("refused")
                continue
            if base:
                expect(not ok, "the schemas mind %s, but the start succeeds", base[0])
                tags.add("invalid-package")
                continue
            if sets and strict:
                expect(not ok, "the schemas mind %s, but the strict start succeeds", sets[0])
                tags.add("invalid-settings")
                continue
            expect(ok, "the schemas mind nothing that matters (settings: %s), but the start fails: %s", sets[:1], err)
            if sets:
                expect(self.domains(ctx) == [], "the schemas mind %s, but there are domains %s", sets[0], self.domains(ctx))
            else:
                now = self.state(ctx)
                for a, b in zip(was[1], now):
                    expect(a == b, "validation changes an outcome: %s\ninstead of %s", b, a)
                tags.add("valid")
        on = {"invalid-package", "invalid-settings"} & tags or "valid" in tags and "ConfigurableElement " in case["settings"]
        if ok and case["imports"]:
            on = self.imports(case, ctx, cp, folder, bad, tags) or on
        return {"nontrivial": bool(on), "tags": tags}

    def names_settings(self, cp):
        with open(cp, encoding="utf-8", errors="surrogateescape") as f:
            return "ConfigurableDomainsFileLocation" in f.read()

    def imports(self, case, ctx, cp, folder, bad, tags):
        """The same imports with and without validation."""
        docs = []
        for n, o in enumerate(case["imports"]):
            if o["one"] and not case["one"]:
                continue
            text = self.apply(case["one"] if o["one"] else case["settings"], o["mut"])
            arg = ctx.write("import%d.xml" % n, text) if o["file"] else text
            docs.append((["api", "a", "importDomain", arg, 1 if o["over"] else 0, 1, 1 if o["file"] else 0] if o["one"] else
                         ["api", "a", "importDomains", arg, 1, 1 if o["file"] else 0], text, o))
        seen = False
        for req, text, o in docs:
            out = {}
            for validate in (0, 1):
                ok, err = self.start(ctx, case, cp, 0, validate, folder)
                expect(ok, "the start fails the second time: %s", err)
                if ctx.run([["cmd", "a", "setTuningMode", "on"]])[0][0] != "1":
                    return seen
                must(ctx.run([["cmd", "a", "deleteAllDomains"], ["cmd", "a", "createDomain", "kept"]]), "making room")
                if not validate:
                    live = ctx.run([["cmd", "a", "getElementBytes", "/sys"]])[0][1].split()
                elif live:
                    # the settings of the start may have been refused: settings that a document leaves out come from the live values
                    must(ctx.run([["cmd", "a", "setElementBytes", "/sys"] + live]), "setting the same values")
                r = ctx.run([req])[0]
                expect(r[0] == "1" or any(r[1:]), "the import is refused without an error")
                out[validate] = (r[0] == "1", self.state(ctx)[1:4], self.domains(ctx), r[1:])
                if validate:
                    r = ctx.run([["opt", "a", "validate", 0], ["opt", "a", "validate", 1], ["getopts", "a"]])
                    expect(r[1][0] == "0" and r[1][1], "validation can be asked for after the start: %s", r[1])
            minds = bad(text=text)
            a, b = out[0], out[1]
            if not a[0]:
                expect(not b[0], "an import refused without validation (%s) is accepted with it:\n%s", a[3], text)
            elif minds:
                expect(not b[0], "the schemas mind %s, but the import succeeds:\n%s", minds[0], text)
                expect(b[2] == ["kept"] or not o["one"] and not b[2], "a refused import leaves the domains %s", b[2])
                tags.add("invalid-import")
                seen = True
            else:
                expect(b[0], "the schemas mind nothing, but the import is refused: %s\n%s", b[3], text)
                expect(a[1] == b[1], "validation changes an import: %s\ninstead of %s", b[1], a[1])
                tags.add("valid-import")
                seen = True
        return seen


CHECK = C29
