"""C09: element contents survive a trip through bytes and XML."""
import xml.etree.ElementTree as ET
import pfstruct as ps
import xmlmut
from pf import *


def parse_tree(e):
    kids = list(e)
    return [e.tag, dict(e.attrib), [parse_tree(k) for k in kids] if kids else (e.text or "")]


class C09(Check):
    pid = "C09"
    technique = "property-based testing: generated elements and contents, byte and XML round trips against a reference layout and codec"
    note = ("Byte images are compared with a reference layout; after every write back all parameters of the system are compared with the "
            "model in raw and real spaces. Bytes after a string's terminator and bits outside of bit parameters are not judged.")
    rule = "one accepted round trip of an element of at least two parameters after its contents changed, and one refused write"
    quick, thorough = 24000, 240000

    def gen(self, src, tier):
        o = ps.GenOpts(maxleaves=12, width=(1, 4), depth=3, arrays=0.3, rec=0.3)
        st = ps.gen_struct(src, o)
        root = ps.instantiate(st)
        leaves, nodes = root.leaves(), root.all()

        def some_sets():
            out = []
            for _ in range(src.int(1, 5)):
                l = src.choice(leaves)
                out.append([l.path, ps.gen_text(src, l, False, 0.0)])
            return out

        def op(i):
            n = src.choice(nodes if src.coin(0.4) else [x for x in nodes if not x.is_leaf()])
            k = src.weighted([(3, "bytes"), (4, "xml"), (1, "badsize"), (3, "badxml"), (2, "genxml"), (1, "scramble")])
            d = {"op": k, "path": n.path, "via": src.choice(["cmd", "h"]), "sets": some_sets()}
            if k == "badsize":
                d["len"] = src.choice([0, 1, max(0, n.size() - 1), n.size() + 1, n.size() + 8])
                d["fill"] = src.int(0, 255)
            if k in ("xml", "badxml", "genxml"):
                d["raw"], d["hex"] = src.coin(), src.coin()
            if k == "badxml":
                d["mut"] = src.choice(["tag", "name", "drop", "extra", "value", "root", "syntax", "swap"])
                d["pick"] = src.int(0, 20)
                l = src.choice(n.leaves()) if n.leaves() else None
                d["leaf"] = l.path if l else None
                d["text"] = ps.gen_text(src, l, d["raw"], 1.0) if l else ""
            if k == "genxml":
                d["texts"] = {l.path: ps.gen_text(src, l, d["raw"], 0.03) for l in n.leaves()}
                d["compat"] = src.coin(0.3)
            return d
        return {"st": st, "ops": src.list(1, 8, op, avg=5)}

    def run(self, case, ctx):
        st = case["st"]
        root = ps.instantiate(st)
        m = ps.Values(root)
        must(ctx.run(boot(ctx, st)))
        trips = bad = 0
        tags = set()
        for n, o in enumerate(case["ops"]):
            what = "operation %d %r" % (n, o)
            node = m.nodes[o["path"]]
            k = o["op"]
            if k == "bytes":
                self.match_bytes(ctx, m, node, o, what)
                saved, model = self.get_bytes(ctx, node, o["via"], what), m.copy()
                self.do_sets(ctx, m, o["sets"], what)
                differs = any(m.v[l.path] != model.v[l.path] for l in node.leaves())
                r = self.put_bytes(ctx, node, saved, o["via"])
                expect(r[0] == "1", "%s: its own bytes are refused: %s", what, r)
                for l in node.leaves():
                    if node.kind != "bit":
                        m.v[l.path] = model.v[l.path]
                check_all(ctx, m, False, False, what=what + " (bytes written back)")
                again = self.get_bytes(ctx, node, o["via"], what)
                expect(again == saved, "%s: bytes %s read back as %s", what, saved.hex(), again.hex())
                trips += differs and len(node.leaves()) > 1
                tags.add("bytes")
            elif k == "badsize":
                self.do_sets(ctx, m, o["sets"], what)
                if o["len"] == node.size() or (o["via"] == "cmd" and o["len"] == 0):
                    continue
                r = self.put_bytes(ctx, node, bytes([o["fill"]]) * o["len"], o["via"])
                expect(r[0] == "0", "%s: accepted although the size is %d", what, node.size())
                expect(r[-1] != "", "%s: refused without an error", what)
                check_all(ctx, m, False, False, what=what + " (refused)")
                bad += 1
            elif k == "scramble":
                # values through bytes mean the same as through text
                self.do_sets(ctx, m, o["sets"], what)
                img = m.bytes(root)
                r = self.put_bytes(ctx, root, img, o["via"])
                expect(r[0] == "1", "%s: %s", what, r)
                check_all(ctx, m, False, False, what=what)
            elif k == "xml":
                self.space(ctx, o["raw"], o["hex"])
                saved, model = self.get_xml(ctx, node, o["via"], what), m.copy()
                self.match_xml(saved, m, node, o["raw"], o["hex"], what)
                self.space(ctx, False, False)
                self.do_sets(ctx, m, o["sets"], what)
                differs = any(m.v[l.path] != model.v[l.path] for l in node.leaves())
                self.space(ctx, o["raw"], o["hex"])
                r = self.put_xml(ctx, node, saved, o["via"], st.get("noise"))
                expect(r[0] == "1", "%s: its own XML is refused: %s\n%s", what, r, saved)
                for l in node.leaves():
                    m.v[l.path] = model.v[l.path]
                self.space(ctx, True, False)
                check_all(ctx, m, True, False, what=what + " (XML written back)")
                self.space(ctx, o["raw"], o["hex"])
                again = self.get_xml(ctx, node, o["via"], what)
                expect(again == saved, "%s: XML\n%s\nread back as\n%s", what, saved, again)
                self.space(ctx, False, False)
                trips += differs and len(node.leaves()) > 1
                tags.add("xml")
            elif k == "genxml":
                self.do_sets(ctx, m, o["sets"], what)
                self.space(ctx, o["raw"], o["hex"])
                t = self.tree(m, node, o["raw"], lambda l: o["texts"][l.path])
                if o["compat"]:
                    self.compat(t)
                r = self.put_xml(ctx, node, ps.tree_xml(t), o["via"], st.get("noise"))
                ok, new = True, {}
                for l in node.leaves():
                    v = m.encode_all(l, self.xtext(o["texts"][l.path]), o["raw"] or l.kind == "enum")
                    if v is None:
                        ok = False
                        break
                    new[l.path] = v
                expect((r[0] == "1") == ok, "%s: %s, expected %s", what, r, ok)
                if ok:
                    m.v.update(new)
                    tags.add("genxml")
                    self.space(ctx, False, False)
                    check_all(ctx, m, False, False, what=what)
                else:
                    bad += 1
                    self.space(ctx, False, False)
                    self.resync(ctx, m, node, what)
            else:
                self.do_sets(ctx, m, o["sets"], what)
                self.space(ctx, o["raw"], o["hex"])
                t = self.tree(m, node, o["raw"], lambda l: m.text(l.path, o["raw"], o["hex"]))
                doc = self.mutate(t, node, m, o)
                if doc is None:
                    self.space(ctx, False, False)
                    continue
                r = self.put_xml(ctx, node, doc, o["via"])
                expect(r[0] == "0", "%s: accepted\n%s", what, doc)
                expect(r[-1] != "", "%s: refused without an error", what)
                bad += 1
                tags.add("bad-" + o["mut"])
                self.space(ctx, False, False)
                self.resync(ctx, m, node, what)
        return {"nontrivial": trips and bad, "tags": tags}

    def xtext(self, t):
        # an XML reader reads carriage returns as line feeds unless escaped; ours escapes them
        return t

    def tree(self, m, node, raw, text):
        t = ps.settings_tree(node, text)

        def mark(t, n):
            if n.kind in ("fix", "float") and raw:
                t[1]["ValueSpace"] = "Raw"
            if isinstance(t[2], list):
                for a, b in zip(t[2], n.kids):
                    mark(a, b)
        mark(t, node)
        return t

    def compat(self, t):
        if isinstance(t[2], list):
            for c in t[2]:
                if c[0] == "ParameterBlock":
                    c[0] = "Component"
                self.compat(c)

    def mutate(self, t, node, m, o):
        inner = []

        def walk(t):
            inner.append(t)
            if isinstance(t[2], list):
                for c in t[2]:
                    walk(c)
        walk(t)
        mut = o["mut"]
        kids = [x for x in inner[1:]]
        pars = [x for x in inner if isinstance(x[2], list) and x[2]]
        if mut == "value":
            if o["leaf"] is None:
                return None
            l = m.nodes[o["leaf"]]
            if m.encode_all(l, o["text"], o["raw"] or l.kind == "enum") is not None:
                return None
            t = self.tree(m, node, o["raw"], lambda x: o["text"] if x is l else m.text(x.path, o["raw"], o["hex"]))
            return ps.tree_xml(t)
        if mut == "root":
            return ps.tree_xml(["Wrong" + t[0], t[1], t[2]]) if o["pick"] % 2 else \
                ps.tree_xml([t[0], dict(t[1], Name="other"), t[2]])
        if mut == "syntax":
            s = ps.tree_xml(t)
            return s[:len(s) - 1 - o["pick"] % max(1, min(6, len(s) - 1))]
        if not kids:
            return None
        c = kids[o["pick"] % len(kids)]
        p = pars[o["pick"] % len(pars)]
        if mut == "tag":
            c[0] = "FloatingPointParameter" if c[0] != "FloatingPointParameter" else "StringParameter"
        elif mut == "name":
            c[1]["Name"] += "x"
        elif mut == "drop":
            p[2].pop(o["pick"] % len(p[2]))
            if not p[2]:
                pass
        elif mut == "extra":
            p[2].append(["BooleanParameter", {"Name": "zz"}, "0"])
        elif mut == "swap":
            if len(p[2]) < 2:
                return None
            p[2][0], p[2][1] = p[2][1], p[2][0]
        return ps.tree_xml(t)

    # ------------------------------------------------ talking to the instance
    def space(self, ctx, raw, hx):
        must(ctx.run([["cmd", "a", "setValueSpace", "raw" if raw else "real"],
                      ["cmd", "a", "setOutputRawFormat", "hex" if hx else "dec"]]))

    def do_sets(self, ctx, m, sets, what):
        q = []
        for p, t in sets:
            if m.set(p, t, False):
                q.append(["api", "a", "setParameter", p, t])
        if q:
            must(ctx.run(q), what)

    def get_bytes(self, ctx, node, via, what):
        if via == "h":
            r = ctx.run([["hpath", "a", node.path, "getBytes"]], raw=True)[0]
            expect(r[0] == b"1", "%s: %s", what, r)
            return r[1]
        r = ctx.run([["cmd", "a", "getElementBytes", node.path]])[0]
        expect(r[0] == "1", "%s: %s", what, r)
        for x in r[1].split():
            expect(len(x) == 4 and x[:2] == "0x", "%s: strange byte %r", what, x)
        return bytes(int(x, 16) for x in r[1].split())

    def put_bytes(self, ctx, node, b, via):
        if via == "h" or not b:
            return ctx.run([["hpath", "a", node.path, "setBytes", b]])[0]
        return ctx.run([["cmd", "a", "setElementBytes", node.path] + ["%d" % x if i % 2 else "0x%02x" % x for i, x in enumerate(b)]])[0]

    def get_xml(self, ctx, node, via, what):
        q = ["hpath", "a", node.path, "getXML"] if via == "h" else ["cmd", "a", "getElementXML", node.path]
        r = ctx.run([q])[0]
        expect(r[0] == "1", "%s: %s", what, r)
        return r[1]

    def put_xml(self, ctx, node, x, via, noise=None):
        x = xmlmut.noise(x, noise)
        q = ["hpath", "a", node.path, "setXML", x] if via == "h" else ["cmd", "a", "setElementXML", node.path, x]
        return ctx.run([q])[0]

    def match_bytes(self, ctx, m, node, o, what):
        b = self.get_bytes(ctx, node, o["via"], what)
        r = ctx.run([["hpath", "a", node.path, "info"], ["cmd", "a", "getElementSize", node.path]])
        expect(r[0][4] == str(node.size()), "%s: reported size %s, expected %d", what, r[0][4], node.size())
        expect(r[1][0] == "1" and r[1][1].split()[0].rstrip("byte(s)") == str(node.size()), "%s: getElementSize gives %s, expected %d", what, r[1],
               node.size())
        expect(len(b) == node.size(), "%s: %d bytes, size is %d", what, len(b), node.size())
        if node.kind == "bit":
            return
        x = ps.Values(m.root)
        x.set_bytes(node, b)
        for l in node.leaves():
            expect(x.v[l.path] == m.v[l.path], "%s: bytes %s hold %s for %s, expected %s", what, b.hex(), x.v[l.path], l.path,
                   m.v[l.path])

    def match_xml(self, text, m, node, raw, hx, what):
        try:
            got = parse_tree(ET.fromstring(text.encode("utf-8", "surrogateescape")))
        except ET.ParseError as e:
            raise Violation("%s: not well-formed: %s\n%s" % (what, e, text))
        want = ps.settings_tree(node, lambda l: m.text(l.path, raw, hx))

        def cmp(g, w, path):
            expect(g[0] == w[0] and g[1].get("Name") == w[1]["Name"], "%s: at %s: %s", what, path, g[:2])
            if isinstance(w[2], list) and w[2]:
                expect(isinstance(g[2], list) and len(g[2]) == len(w[2]), "%s: children of %s: %s", what, path, g[2])
                for a, b in zip(g[2], w[2]):
                    cmp(a, b, path + "/" + b[1]["Name"])
            elif not isinstance(w[2], list):
                expect(g[2] == w[2], "%s: %s holds %r, expected %r", what, path, g[2], w[2])
        cmp(got, want, node.path)

    def resync(self, ctx, m, node, what):
        """After a refusal only parameters of the element may have changed: adopt those."""
        got = read_all(ctx, m.leaves)
        inside = {l.path for l in node.leaves()}
        compare_all(got, m, False, False, what + " (outside of the element)", inside)
        b = self.get_bytes(ctx, node, "h", what)
        if node.kind == "bit":
            f = m.find(node.path)
            m.v[node.path] = int(got[node.path][1])
        else:
            m.set_bytes(node, b)
        for l in node.leaves():
            ok, t = got[l.path]
            expect(ok and t == m.text(l.path), "%s: %s reads %r, its bytes mean %r", what, l.path, t, m.text(l.path))


CHECK = C09
