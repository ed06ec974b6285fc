"""C10: exporting then importing settings reproduces the same state."""
import copy
import os
import re
import pfdom
import pfstruct as ps
import xml.etree.ElementTree as ET
import xmlmut
import xsd
from pf import *

BAD = ["path", "outside", "conf", "value", "child", "tag", "criterion", "trunc", "root", "sysname", "dupelem", "extra", "nofile", "empty", "two", "none", "name", "word"]


def clone(d):
    n = pfdom.Dom(d.name)
    n.seq, n.els = d.seq, list(d.els)
    for c in d.confs:
        k = pfdom.Conf(c.name)
        k.rule, k.order = c.rule, list(c.order)
        k.data = {e: {p: pfdom.dup(v) for p, v in c.data[e].items()} for e in c.data}
        n.confs.append(k)
    return n


class Doc:
    """A settings document as a value: domains, whether it carries settings, whether it is about a single domain."""

    def __init__(self, doms, sets, single):
        self.doms, self.sets, self.single, self.text = [clone(d) for d in doms], sets, single, None
        self.space = None


def missing(seed):
    """Which settings a partial document leaves out."""
    def f(d, c, e):
        return (hash((seed, len(d.els), len(e))) + 3 * d.confs.index(c) + 5 * c.order.index(e)) % seed == 0
    return f


def install(w, o, doc):
    """Models an import; returns whether it must succeed."""
    if not w.tuning:
        return False
    if doc.single and w.dom(doc.doms[0].name) and not o["overwrite"]:
        return False
    if doc.single:
        if w.dom(doc.doms[0].name):
            w.drop_domain(w.dom(doc.doms[0].name))
    else:
        for d in list(w.doms):
            w.drop_domain(d)
    left = missing(o["partial"]) if o.get("partial") else lambda d, c, e: False
    for src in doc.doms:
        d = clone(src)
        w.doms.append(d)
        for e in d.els:
            w.attached.setdefault(e, []).append(d)
        gone = {(c, e) for i, c in enumerate(d.confs) for e in c.order
                if not (doc.sets and o["sets"]) or left(src, src.confs[i], e)}
        for c in d.confs:
            given = [e for e in c.order if (c, e) not in gone]
            c.order = given + [e for e in d.els if e not in given]
        for e in d.els:
            whole = [c for c in d.confs if (c, e) not in gone]
            for c in d.confs:
                if (c, e) in gone:
                    c.data[e] = {p: pfdom.dup(v) for p, v in whole[0].data[e].items()} if whole else w.snap(e)
    return True


class C10(Check):
    pid = "C10"
    technique = "stateful property-based testing: export/import round trips (same instance, fresh instance, start-up file; string and file; all domains or one; raw and real value space) inside generated histories, and systematically broken documents, against a reference model"
    note = ("After each transfer every listing, rule, value and stored configuration is compared with the model, and the document exported again "
            "with the first one. Documents that leave settings out take them from the first configuration that has them, else from the live "
            "values. After a failed import of all domains, no domain or the former ones must remain. Exports within what the schemas have "
            "room for are validated with libxml2 against the shipped schemas.")
    rule = "at least one accepted import of a domain with a configuration and an element, and either a change between its export and import, a fresh instance, or a refused document"
    quick, thorough = 10000, 110000
    profile = {"weights": {"saveConf": 3, "setParam": 5, "setConfParam": 4, "createConf": 2, "deleteConf": 3, "renameConf": 2, "addElem": 2,
                           "removeElem": 2, "split": 2, "setSequence": 3, "crit": 2, "apply": 1, "tuning": 1, "setSeq": 2, "createDomain": 1,
                           "deleteDomain": 3, "deleteAllDomains": 1, "renameDomain": 2, "setRule": 2, "clearRule": 1, "space": 10,
                           "import": 26},
               "doms": (1, 3), "confs": (1, 3), "n": (4, 18, 10), "file": 0.3, "leave": 0.05, "overlap": 0.3, "rec": 0.3, "maxleaves": 9,
               "modal": False}

    def gen(self, src, tier):
        docs = []

        def extra(src, w, k):
            k = src.weighted([(5, "export"), (6 if docs else 0, "import"), (2 if w.doms else 0, "fresh"), (5, "bad"), (2, "made")])
            o = {"op": k, "file": src.coin(), "api": src.coin()}
            if k == "export":
                o["d"] = src.choice(w.doms).name if w.doms and src.coin() else None
                o["sets"] = True if o["d"] is not None and not o["api"] else src.coin(0.85)
                if not o["sets"]:
                    o["file"] = True
            elif k == "import":
                o["id"] = len(docs) - 1 - src.below(min(3, len(docs)))
                o["overwrite"] = src.coin(0.7)
                o["sets"] = True if docs[o["id"]].single and not o["api"] else docs[o["id"]].sets and src.coin(0.9)
                if not o["sets"]:
                    o["file"] = True
            elif k == "fresh":
                o["how"] = src.choice(["start", "import", "one"])
                o["which"] = src.below(len(w.doms))
            else:
                o["single"] = src.coin(0.6)
                o["sets"] = True
                if not w.doms and o["single"]:
                    return {"op": "export", "file": False, "api": False, "d": None, "sets": True}
                o["which"] = src.below(max(1, len(w.doms)))
                o["overwrite"] = src.coin(0.7)
                o["rename"] = src.coin(0.4)
                if k == "made":
                    o["partial"] = src.int(2, 7) if src.coin(0.8) else 1
                    o["old"] = src.coin(0.3)
                else:
                    o["how"], o["at"] = src.choice(BAD), src.below(1000)
            self.model(w, o, docs)
            return o
        return pfdom.gen_history(src, self.profile, tier, extra=extra)

    def model(self, w, o, docs):
        """Effect of a transfer on the model: (expected success, document)."""
        if o["op"] == "export":
            doc = Doc([w.dom(o["d"])] if o["d"] is not None else w.doms, o["sets"], o["d"] is not None)
            docs.append(doc)
            return True, doc
        if o["op"] == "import":
            doc = docs[o["id"]]
            return install(w, o, doc), doc
        if o["op"] == "made":
            doc = self.doc(w, o)
            return install(w, o, doc), doc
        if o["op"] == "bad":
            doc = self.doc(w, o)
            text = self.spoil(w, doc, o)
            if text is not None and w.tuning and not o["single"]:
                # all domains may be gone; the run goes on without them
                for d in list(w.doms):
                    w.drop_domain(d)
            return (False if text is not None else None), text
        return True, None

    def doc(self, w, o):
        doms = [clone(w.doms[o["which"] % len(w.doms)])] if o["single"] else [clone(d) for d in w.doms]
        if o["single"] and o["rename"]:
            doms[0].name = "new dom"
        return Doc(doms, True, o["single"])

    def text(self, w, doc, o):
        left = missing(o["partial"]) if o.get("partial") else None
        x = "".join(pfdom.domain_xml(w, d, partial=left) for d in doc.doms)
        if o.get("old"):
            # what parameter blocks used to be called
            x = re.sub(r"<(/?)ParameterBlock\b", r"<\1Component", x)
        return x if doc.single else '<ConfigurableDomains SystemClassName="sys">' + x + "</ConfigurableDomains>"

    def spoil(self, w, doc, o):
        """The text of a document with one fault, or None when it has no place for it."""
        how, at = o["how"], o["at"]

        def pick(seq):
            seq = list(seq)
            return seq[at % len(seq)] if seq else None
        doms = doc.doms
        if how == "nofile":
            return "" if o["file"] else None
        if how == "word":
            # nothing wrong with the document: with the option instead
            return self.text(w, doc, o) if o["single"] and not o["api"] else None
        if how == "empty":
            return "<?xml version='1.0'?>" if at % 2 else " "
        if how == "root":
            if doc.single:
                return '<ConfigurableDomains SystemClassName="sys">' + self.text(w, doc, o) + "</ConfigurableDomains>"
            return pfdom.domain_xml(w, doms[0]) if doms else '<Other SystemClassName="sys"/>'
        if how == "sysname":
            return None if doc.single else self.text(w, doc, o).replace('SystemClassName="sys"', 'SystemClassName="%s"' % (
                "sys2", "sxs", "sy", "", "Sys", "syt")[at % 6])
        if how == "trunc":
            t = self.text(w, doc, o)
            return t[:1 + at * (len(t) - 2) // 1000]
        if how == "criterion":
            c = pick(c for d in doms for c in d.confs)
            if c is None:
                return None
            c.rule = ["All", ([c.rule] if c.rule else []) + [["C", "Unknown", "Is", "x"]]]
            return self.text(w, doc, o)
        if how in ("path", "dupelem"):
            d = pick(d for d in doms if d.els)
            if d is None:
                return None
            t = self.text(w, doc, o)
            e = "<ConfigurableElement%s/>" % ps.attrs({"Path": pick(d.els)})
            return t.replace(e, e + e if how == "dupelem" else e.replace(' Path="', ' Path="/x'), 1)
        trip = [(d, c, e) for d in doms for c in d.confs for e in c.order]
        if not trip:
            return None
        d, c, e = pick(trip)
        mark = ps.tree_xml(ps.settings_tree(w.nodes[e], lambda l: w.vals.text_of(l, c.data[e][l.path])))
        t = self.text(w, doc, o)
        base = t.find(pfdom.domain_xml(w, d))
        head = "<Configuration%s>" % ps.attrs({"Name": c.name})
        s = t.index("<Settings>", base)
        i = t.index(head, s)
        k = t.index("<ConfigurableElement%s>" % ps.attrs({"Path": e}), i)
        if how == "conf":
            return t[:i] + head.replace('"', '"x', 1) + t[i + len(head):]
        if how == "outside":
            other = [n for n in w.nodes if n not in d.els]
            if not other:
                return None
            h = "<ConfigurableElement%s>" % ps.attrs({"Path": e})
            return t[:k] + "<ConfigurableElement%s>" % ps.attrs({"Path": pick(other)}) + t[k + len(h):]
        j = t.index(mark, k)
        n = w.nodes[e]
        if how == "none":
            return t[:j] + t[j + len(mark):]
        if how == "two":
            m = pick([mark, mark.replace(' Name="', ' Name="x', 1), "<Zz/>"])
            return t[:j] + (mark + m if at % 2 else m + mark) + t[j + len(mark):]
        if how == "value":
            l = pick(n.leaves())
            if l.kind == "str":
                bad = "x" * (l.e["maxlen"] + 1)
            else:
                bad = "zz"

            def val(x):
                return bad if x is l else w.vals.text_of(x, c.data[e][x.path])
            new = ps.tree_xml(ps.settings_tree(n, val))
        else:
            tree = ps.settings_tree(n, lambda l: w.vals.text_of(l, c.data[e][l.path]))
            subs = []

            def walk(x):
                if isinstance(x[2], list):
                    subs.append(x)
                    for y in x[2]:
                        walk(y)
            walk(tree)
            x = pick(subs)
            if x is None and how not in ("tag", "name"):
                return None
            if how == "child":
                if not x[2]:
                    return None
                del x[2][at % len(x[2])]
            elif how == "extra":
                x[2].append(copy.deepcopy(x[2][-1]) if x[2] else ["Zz", {"Name": "zz"}, ""])
            elif how == "name":
                y = pick([tree] + [z for x in subs for z in x[2]])
                # as long as the right one, most of the time
                c = y[1]["Name"]
                y[1]["Name"] = c[:-1] + ("z" if c[-1] != "z" else "y") + ("" if at % 3 else "z")
            else:
                tree[0] += "s"
            new = ps.tree_xml(tree)
        return t[:j] + new + t[j + len(mark):]

    def request(self, ctx, doc_single, text, o, slot="a"):
        f = o["file"]
        if o.get("how") == "nofile":
            arg = os.path.join(ctx.dir, "absent.xml")
        else:
            if not o.get("how"):
                text = xmlmut.noise(text, self.odd)
            arg = ctx.write("import.xml", text) if f else text
        over = o.get("overwrite", False)
        if o["api"]:
            if doc_single:
                return ["api", slot, "importDomain", arg, 1 if over else 0, 1 if o["sets"] else 0, 1 if f else 0]
            return ["api", slot, "importDomains", arg, 1 if o["sets"] else 0, 1 if f else 0]
        if not o["sets"]:
            return ["cmd", slot, "importDomainsXML", arg]
        if doc_single:
            return ["cmd", slot, "importDomainWithSettingsXML" if f else "setDomainWithSettingsXML", arg] + \
                ([["overwrit", "Overwrite", "overwrites", "0"][o["at"] % 4]] if o.get("how") == "word" else ["overwrite"] if over else [])
        return ["cmd", slot, "importDomainsWithSettingsXML" if f else "setDomainsWithSettingsXML", arg]

    def export(self, ctx, d, o, what, slot="a", doms=()):
        f = o["file"]
        path = os.path.join(ctx.dir, "export.xml")
        if f and os.path.exists(path):
            os.unlink(path)
        if o["api"]:
            # to a string: the reply's second field
            q = ["api", slot, "exportDomain", path if f else "", d, 1 if o["sets"] else 0, 1 if f else 0] if d is not None else \
                ["api", slot, "exportDomains", path if f else "", 1 if o["sets"] else 0, 1 if f else 0]
        elif not o["sets"]:
            q = ["cmd", slot, "exportDomainsXML", path]
        elif d is not None:
            q = ["cmd", slot, "exportDomainWithSettingsXML", d, path] if f else ["cmd", slot, "getDomainWithSettingsXML", d]
        else:
            q = ["cmd", slot, "exportDomainsWithSettingsXML", path] if f else ["cmd", slot, "getDomainsWithSettingsXML"]
        r = ctx.run([q])[0]
        expect(r[0] == "1", "%s: %s", what, r)
        text = r[1]
        if f:
            expect(os.path.exists(path), "%s: no file", what)
            with open(path, encoding="utf-8", errors="surrogateescape") as h:
                text = h.read()
        if doms and self.plain(doms, o["sets"]):
            e = xsd.errors(text, "ConfigurableDomains" if d is None else "ConfigurableDomain")
            expect(not e, "%s: the schemas refuse the exported document: %s\n%s", what, e, text)
        return text

    def plain(self, doms, sets):
        """Whether the shipped schemas have room for these domains: they want configurations, names without blanks or quotes,
        and no settings of whole subsystems."""
        return all(d.confs and all(re.match(r"[A-Za-z_][\w.-]*$", x, re.A) for x in [d.name] + [c.name for c in d.confs]) and
                   not (sets and any(e.count("/") < 3 for e in d.els)) for d in doms)

    def settings_match(self, w, doms, text, what):
        """The settings of the document are those of the model, in its value space."""
        try:
            x = ET.fromstring(text.encode("utf-8", "surrogateescape"))
        except ET.ParseError as e:
            raise Violation("%s: not well-formed: %s\n%s" % (what, e, text))
        for d in doms:
            xd = [y for y in [x] + list(x) if y.tag == "ConfigurableDomain" and y.get("Name") == d.name]
            for c in d.confs:
                xc = [y for z in xd for y in z.findall("Settings/Configuration") if y.get("Name") == c.name]
                expect(len(xc) == 1 and len(xc[0]) == len(d.els), "%s: the settings of %s/%s are missing:\n%s", what, d.name, c.name, text)
                for y in xc[0]:
                    e = y.get("Path")
                    expect(e in d.els and len(y) == 1, "%s: settings of %s/%s for %s:\n%s", what, d.name, c.name, e, text)
                    want = ps.settings_tree(w.nodes[e], lambda l: w.vals.text_of(l, c.data[e][l.path], w.raw, w.hx))
                    self.same(y[0], want, "%s: %s/%s: %s" % (what, d.name, c.name, e))

    def same(self, x, want, what):
        expect(x.tag == want[0] and x.get("Name") == want[1]["Name"], "%s: the document has %s %s, expected %s", what, x.tag, x.attrib, want[:2])
        if isinstance(want[2], list):
            expect(len(x) == len(want[2]), "%s: %s has %d children, expected %d", what, x.get("Name"), len(x), len(want[2]))
            for a, b in zip(x, want[2]):
                self.same(a, b, what)
        else:
            expect((x.text or "") == want[2], "%s: %s holds %r, expected %r", what, x.get("Name"), x.text, want[2])

    def run(self, case, ctx):
        self.odd = case["st"].get("noise")
        r = pfdom.Runner(ctx, case)
        w = r.w
        docs, tags = [], set()
        good, proof, edits = 0, 0, 0

        def weighty(doc):
            return any(d.els and d.confs for d in doc.doms)
        for n, o in r.setup():
            k = o["op"]
            what = "operation %d %r" % (n, o)
            if k == "export":
                if o["d"] is not None and not w.dom(o["d"]):
                    docs.append(Doc([], True, False))  # only when shrinking
                    continue
                _, doc = self.model(w, o, docs)
                doc.text, doc.space, doc.at = self.export(ctx, o["d"], o, what, doms=doc.doms), (w.raw, w.hx), edits
                if doc.sets:
                    self.settings_match(w, doc.doms, doc.text, what)
                tags.add("export-%s-%s%s" % ("all" if o["d"] is None else "one", "raw" if w.raw else "real", "-hex" if w.hx else ""))
            elif k == "import":
                if o["id"] >= len(docs) or docs[o["id"]].text is None or o["sets"] and not docs[o["id"]].sets and not o["api"]:
                    continue
                ok, doc = self.model(w, o, docs)
                rep = ctx.run([self.request(ctx, doc.single, doc.text, o)])[0]
                expect((rep[0] == "1") == ok, "%s: %s, expected %s", what, rep, "success" if ok else "a refusal")
                if ok:
                    good += weighty(doc)
                    proof += edits != doc.at
                    tags.add("import-%s" % ("one" if doc.single else "all"))
                    if doc.space == (w.raw, w.hx) and doc.sets and o["sets"]:
                        again = self.export(ctx, doc.doms[0].name if doc.single else None, {"file": False, "api": False, "sets": True}, what)
                        expect(again.strip() == doc.text.strip(), "%s: exported again as\n%s\nbut was imported from\n%s", what, again, doc.text)
                else:
                    expect(any(rep[1:]), "%s: refused without an error", what)
                    proof += 1
                    tags.add("refused-import")
            elif k == "made":
                if o["single"] and not w.doms:
                    continue
                text = self.text(w, self.doc(w, o), o)
                ok, doc = self.model(w, o, docs)
                rep = ctx.run([self.request(ctx, o["single"], text, o)])[0]
                expect((rep[0] == "1") == ok, "%s: %s, expected %s", what, rep, "success" if ok else "a refusal")
                if ok:
                    good += weighty(doc)
                    tags.add("partial")
            elif k == "bad":
                if o["single"] and not w.doms:
                    continue
                names = [d.name for d in w.doms]
                kept = [clone(d) for d in w.doms]
                bad, text = self.model(w, o, docs)
                if bad is None:
                    continue
                rep = ctx.run([self.request(ctx, o["single"], text, o)])[0]
                expect(rep[0] == "0" and any(rep[1:]), "%s: %s for the document\n%s", what, rep, text)
                proof += 1
                tags.add("bad-" + o["how"])
                if w.tuning and not o["single"]:
                    ls = ctx.run([["cmd", "a", "listDomains"]])[0]
                    if ls[1].strip():
                        # refused before anything was dropped
                        expect(len(ls[1].strip().split("\n")) == len(names), "%s: left the domains %r of %r", what, ls[1], names)
                        r.ctx.run([["cmd", "a", "deleteAllDomains"]])
            elif k == "fresh":
                if not w.doms:
                    continue
                self.fresh(ctx, case, w, o, what)
                good += any(d.els and d.confs for d in w.doms)
                proof += 1
                tags.add("fresh-" + o["how"])
            else:
                r.step(n, o)
                edits += 1
                continue
            r.observe("after " + what)
        return {"nontrivial": good and proof, "tags": tags}

    def fresh(self, ctx, case, w, o, what):
        how = o["how"]
        d = w.doms[o["which"] % len(w.doms)]
        plain = {"file": False, "api": False, "sets": True, "overwrite": False}
        text = self.export(ctx, d.name if how == "one" else None, dict(o, sets=True), what)
        crits = [dict(c, state=w.states[c["name"]]) for c in case["crits"]]
        w2 = pfdom.World(case["st"], crits)
        c2 = dict(case, crits=crits, file=False)
        if how == "start":
            install(w2, plain, Doc(w.doms, True, False))
            r2 = pfdom.Runner(ctx, c2, "b", settings=w2, xml=text, reset=False)
        else:
            r2 = pfdom.Runner(ctx, c2, "b", reset=False)
            rep = ctx.run([self.request(ctx, how == "one", text, dict(plain, file=o["file"]), "b")])[0]
            expect(rep[0] == "1", "%s: refused by a fresh instance: %s", what, rep)
            install(r2.w, plain, Doc([d] if how == "one" else w.doms, True, how == "one"))
        r2.observe("in a fresh instance after " + what)
        r2.step(-1, {"op": "space", "raw": w.raw, "hex": w.hx})
        again = self.export(ctx, d.name if how == "one" else None, plain, what, "b")
        expect(again.strip() == text.strip(), "%s: a fresh instance exports\n%s\nafter importing\n%s", what, again, text)
        ctx.run([["del", "b"]])


CHECK = C10
