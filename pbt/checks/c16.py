"""C16: a structure description instantiates exactly the elements it declares."""
import math, os, re, struct
import xml.etree.ElementTree as ET
from xml.sax.saxutils import quoteattr
import pfstruct as ps
import xmlmut
from pf import *

WRAP = "{http://www.w3.org/2001/XInclude}include"


# ------------------------------------------------------------------ expected texts
def cpp_f(x):
    return "%f" % x


class Single:
    """Any text of a single-precision number."""
    def __init__(self, x):
        self.x = x

    def __eq__(self, other):
        try:
            return struct.unpack("f", struct.pack("f", float(other))) == struct.unpack("f", struct.pack("f", self.x))
        except (ValueError, OverflowError):
            return False

    def __repr__(self):
        return repr(self.x)


def properties(n):
    """Set of the lines that describe an element."""
    out = ["Kind: " + n.framework_kind(), "Total size: %d byte(s)" % n.size()]
    e = n.e or {}
    if n.desc and not (n.kind == "comp" and not e.get("desc")):
        out.append("Description: " + n.desc)
    if e.get("unit"):
        out.append("Unit: " + e["unit"])
    if n.kind in ps.INTLIKE:
        out.append("Scalar size: %d byte(s)" % (ps.esize(e) // 8))
    if n.kind == "int":
        lo, hi = ps.int_range(e)
        out += ["Signed: " + ("yes" if e.get("signed") else "no"), "Min: %d" % lo, "Max: %d" % hi]
        ad = e.get("adapt")
        if ad:
            out += ["Adaptation:", "- Type: " + ("Logarithmic" if ad.get("log") else "Linear"),
                    "- Offset: %d" % ad.get("off", 0), "- SlopeNumerator: " + cpp_f(float(ad.get("num", 1))),
                    "- SlopeDenominator: " + cpp_f(float(ad.get("den", 1)))]
            if ad.get("log"):
                out += ["- LogarithmBase: " + cpp_f(float(ad["base"]) if ad.get("base") else math.e),
                        "- FloorValue: " + cpp_f(float(ad["floor"]))]
    elif n.kind == "enum":
        out += ["Value Pairs:"] + ['Literal: "%s", Numerical: %d' % (l, v) for l, v in e["pairs"]]
    elif n.kind == "fix":
        out.append("Notation: Q%d.%d" % (e["i"], e["f"]))
    elif n.kind == "float":
        lo, hi = ps.flt_range(e)
        out += ["Min:" + cpp_f(lo), "Max:" + cpp_f(hi)]
    elif n.kind == "str":
        out.append("Max length: %d" % e["maxlen"])
    elif n.kind == "bit":
        out += ["Bit pos: %d" % e["pos"], "Bit size: %d" % e["size"], "Max: %d" % bit_max(e)]
    if n.kind in ps.INTLIKE and n.arr:
        out.append("Array length: %d" % n.arr)
    return sorted(x.strip() for x in out)


def bit_max(e):
    return (1 << e["size"]) - 1 if e.get("max") is None else e["max"]


def structure(n):
    """Expected structure document of an element: [tag, attributes, children]."""
    e = n.e or {}
    a = {"Name": n.name}
    if n.desc:
        a["Description"] = n.desc
    kids = []
    if e.get("unit"):
        a["Unit"] = e["unit"]
    if n.kind in ps.INTLIKE and n.arr:
        a["ArrayLength"] = str(n.arr)
    if n.kind in ("int", "enum", "fix", "float", "bits"):
        a["Size"] = str(32 if n.kind == "float" else e["size"])
    if n.kind == "int":
        lo, hi = ps.int_range(e)
        a["Signed"], a["Min"], a["Max"] = "true" if e.get("signed") else "false", str(lo), str(hi)
        if e.get("adapt"):
            kids = [["Adaptation", {"Name": "Logarithmic" if e["adapt"].get("log") else "Linear"}, []]]
    elif n.kind == "enum":
        kids = [["ValuePair", {"Literal": l, "Numerical": str(v)}, []] for l, v in e["pairs"]]
    elif n.kind == "fix":
        a["Integral"], a["Fractional"] = str(e["i"]), str(e["f"])
    elif n.kind == "float":
        for x, y in (("min", "Min"), ("max", "Max")):
            a[y] = Single(ps.flt_range(e)[x == "max"])
    elif n.kind == "str":
        a["MaxLength"] = str(e["maxlen"])
    elif n.kind == "bit":
        a["Pos"], a["Size"], a["Max"] = str(e["pos"]), str(e["size"]), str(bit_max(e))
    if n.kids:
        kids = [structure(k) for k in n.kids]
    return [ps.xml_tag(n), a, kids]


def parsed(x):
    return [x.tag, dict(x.attrib), [parsed(k) for k in x]]


# A framework that prints fewer attributes about an element is not wrong, one that prints other values is
def same_structure(got, want, path):
    expect(got[0] == want[0], "%s: structure element %s, expected %s", path, got[0], want[0])
    p = path + "/" + want[1].get("Name", want[0])
    expect(got[1] == want[1], "%s: structure attributes %s, expected %s", p, got[1], want[1])
    expect(len(got[2]) == len(want[2]), "%s: structure has %d children, expected %d", p, len(got[2]), len(want[2]))
    for g, w in zip(got[2], want[2]):
        same_structure(g, w, p)


# ------------------------------------------------------------------ packaging of the description
def package(ctx, case):
    """Writes the description's files, returns the path of the configuration file."""
    st, pk = case["st"], case["pack"]
    odd = None if case.get("bad") else st.get("noise")
    subs = []
    for i, s in enumerate(st["subs"]):
        x = sub_xml(ctx, s, i, pk)
        if pk["include"][i % len(pk["include"])]:
            ctx.write("inc%d.xml" % i, xmlmut.noise('<?xml version="1.0" encoding="UTF-8"?>\n' + x, odd))
            x = '<SubsystemInclude Path="%sinc%d.xml"/>\n' % ("./" if i else "", i)
        subs.append(x)
    doc = '<?xml version="1.0" encoding="UTF-8"?>\n<SystemClass Name=%s>\n%s</SystemClass>\n' % (
        quoteattr(st["name"]), "".join(subs))
    bad = case.get("bad")
    if bad:
        doc = spoil(doc, bad, ctx)
    sp = ctx.write("struct.xml", xmlmut.noise(doc, odd))
    conf = ps.config_xml(st, ctx.built, "struct.xml" if pk["rel"] else sp, port=1 + case["port"] if pk["schema"] else None)
    if bad and bad["k"] == "sysname":
        other = ["other", st["name"][:-1], st["name"] + "z", st["name"][:-1] + "z", "z" + st["name"][1:], st["name"].upper()][bad["at"] % 6]
        conf = re.sub(r'SystemClassName="[^"]*"', 'SystemClassName="%s"' % other, conf)
    return ctx.write("conf.xml", xmlmut.noise(conf, odd))


def sub_xml(ctx, s, i, pk):
    """ps.sub_xml with the component types spread over nested libraries and included files."""
    x = ps.sub_xml(s)
    if not s.get("types"):
        return x
    head, _, rest = x.partition("<ComponentLibrary>\n")
    lib, _, tail = rest.partition("</ComponentLibrary>\n")
    types = re.findall(r" <ComponentType[ >].*?</ComponentType>\n", lib, re.S)
    out, stack = "", []
    for j, t in enumerate(types):
        m = pk["nest"][j % len(pk["nest"])]
        if m == 1:
            out += "<ComponentTypeSet>\n"
            stack.append("</ComponentTypeSet>\n")
        elif m == 2:
            out += "<ComponentLibrary>\n"
            stack.append("</ComponentLibrary>\n")
        elif m == 3 and stack:
            out += stack.pop()
        if m == 4:
            ctx.write("set%d-%d.xml" % (i, j), '<?xml version="1.0"?>\n<ComponentTypeSet>\n%s</ComponentTypeSet>\n' % t)
            out += '<xi:include xmlns:xi="http://www.w3.org/2001/XInclude" href="set%d-%d.xml"/>\n' % (i, j)
        else:
            out += t
    out += "".join(reversed(stack))
    return head + "<ComponentLibrary>\n" + out + "</ComponentLibrary>\n" + tail


# ------------------------------------------------------------------ ill-formed descriptions
# kind: (always refused, refused by the schemas)
BAD = {
    "comptype": (True, True), "extends": (True, False), "selfext": (True, False), "selfcomp": (True, False),
    "nestcomp": (True, False), "bitrange": (True, False), "bitmax": (True, False), "intrange": (True, False),
    "intbound": (True, False), "floatrange": (True, False), "floatsize": (True, True), "fixsize": (True, False),
    "slope": (True, False), "size": (True, True), "bitzero": (True, True), "bitssize": (True, True),
    "noinst": (True, True), "place": (True, True), "unknowntag": (True, True), "syntax": (True, True),
    "noinclude": (True, True), "sysname": (True, True), "arraylen": (True, True), "longlen": (True, True),
    "dupname": (False, True), "noname": (False, True), "badname": (False, True), "nosize": (False, True),
    "nolib": (False, True), "nopairs": (False, True), "duppair": (False, True), "emptyblock": (False, True),
    "emptybits": (False, True), "twoadapt": (False, True), "nomaxlen": (False, True), "nopos": (False, True),
    "negmax": (True, False), "wrongroot": (False, True), "noq": (False, True), "unit": (False, False),
    "pairrange": (False, False), "extattr": (False, True),
}
LEAF = {
    "bitrange": '<BitParameterBlock Name="zz" Size="%(bs)d"><BitParameter Name="b" Pos="%(over)d" Size="%(n)d"/></BitParameterBlock>',
    "bitmax": '<BitParameterBlock Name="zz" Size="32"><BitParameter Name="b" Pos="1" Size="%(n)d" Max="%(bm)d"/></BitParameterBlock>',
    "negmax": '<BitParameterBlock Name="zz" Size="32"><BitParameter Name="b" Pos="1" Size="%(n)d" Max="-1"/></BitParameterBlock>',
    "intrange": '<IntegerParameter Name="zz" Size="%(sz)d" Signed="true" Min="%(n)d" Max="%(lt)d"/>',
    "intbound": '<IntegerParameter Name="zz" Size="%(sz)d" Signed="%(sg)s" %(mm)s="%(out)d"/>',
    "floatrange": '<FloatingPointParameter Name="zz" Min="%(n)d.5" Max="%(lt)d.25"/>',
    "floatsize": '<FloatingPointParameter Name="zz" Size="%(fs)s"/>',
    "fixsize": '<FixedPointParameter Name="zz" Size="%(sz)d" Integral="%(qi)d" Fractional="%(qf)d"/>',
    "slope": '<IntegerParameter Name="zz" Size="16"><%(ad)sAdaptation SlopeDenominator="0"/></IntegerParameter>',
    "size": '<%(tag)s Name="zz" Size="%(badsize)s"%(rest)s</%(tag)s>',
    "bitzero": '<BitParameterBlock Name="zz" Size="8"><BitParameter Name="b" Pos="%(p)d" Size="0"/></BitParameterBlock>',
    "bitssize": '<BitParameterBlock Name="zz" Size="%(bbs)s"><BitParameter Name="b" Pos="0" Size="1"/></BitParameterBlock>',
    "unknowntag": '<%(unk)s Name="zz"/>',
    "arraylen": '<BooleanParameter Name="zz" ArrayLength="%(alen)s"/>',
    "longlen": '<StringParameter Name="zz" MaxLength="%(alen)s"/>',
    "dupname": '<BooleanParameter Name="zz"/><IntegerParameter Name="zz" Size="%(sz)d"/>',
    "noname": '<%(anytag)s Size="8"%(rest2)s</%(anytag)s>',
    "badname": '<BooleanParameter Name="%(bn)s"/>',
    "nosize": '<%(tag)s Name="zz"%(rest)s</%(tag)s>',
    "nopairs": '<EnumParameter Name="zz" Size="%(sz)d"/>',
    "duppair": '<EnumParameter Name="zz" Size="8"><ValuePair Literal="A" Numerical="1"/><ValuePair Literal="A" Numerical="2"/></EnumParameter>',
    "pairrange": '<EnumParameter Name="zz" Size="8"><ValuePair Literal="A" Numerical="%(out)d"/></EnumParameter>',
    "emptyblock": '<ParameterBlock Name="zz"/>',
    "emptybits": '<BitParameterBlock Name="zz" Size="%(bs)d"/>',
    "twoadapt": '<IntegerParameter Name="zz" Size="16"><LinearAdaptation/><LogarithmicAdaptation Offset="3"/></IntegerParameter>',
    "nomaxlen": '<StringParameter Name="zz"/>',
    "nopos": '<BitParameterBlock Name="zz" Size="8"><BitParameter Name="b" Size="1"/></BitParameterBlock>',
    "noq": '<FixedPointParameter Name="zz" Size="%(sz)d"/>',
    "unit": '<BooleanParameter Name="zz"/>',
    "extattr": '<BooleanParameter Name="zz" Colour="red"/>',
}
# where = parent tag, element that does not belong there
PLACES = [
    ("InstanceDefinition", '<BitParameter Name="zz" Pos="0" Size="1"/>'),
    ("InstanceDefinition", '<ValuePair Literal="A" Numerical="1"/>'),
    ("InstanceDefinition", '<LinearAdaptation/>'),
    ("InstanceDefinition", '<ComponentType Name="zz"><BooleanParameter Name="q"/></ComponentType>'),
    ("InstanceDefinition", '<Subsystem Name="zz" Type="Virtual"><ComponentLibrary/><InstanceDefinition><BooleanParameter Name="q"/></InstanceDefinition></Subsystem>'),
    ("InstanceDefinition", '<ParameterBlock Name="zz"><BitParameter Name="b" Pos="0" Size="1"/></ParameterBlock>'),
    ("InstanceDefinition", '<ParameterBlock Name="zz"><LogarithmicAdaptation/></ParameterBlock>'),
    ("InstanceDefinition", '<ParameterBlock Name="zz"><ComponentType Name="y"/></ParameterBlock>'),
    ("InstanceDefinition", '<BitParameterBlock Name="zz" Size="8"><BooleanParameter Name="b"/></BitParameterBlock>'),
    ("InstanceDefinition", '<BitParameterBlock Name="zz" Size="8"><BitParameter Name="b" Pos="0" Size="1"/><ParameterBlock Name="c"/></BitParameterBlock>'),
    ("InstanceDefinition", '<IntegerParameter Name="zz" Size="8"><BooleanParameter Name="b"/></IntegerParameter>'),
    ("InstanceDefinition", '<IntegerParameter Name="zz" Size="8"><ValuePair Literal="A" Numerical="1"/></IntegerParameter>'),
    ("InstanceDefinition", '<EnumParameter Name="zz" Size="8"><BooleanParameter Name="b"/></EnumParameter>'),
    ("InstanceDefinition", '<EnumParameter Name="zz" Size="8"><LinearAdaptation/></EnumParameter>'),
    ("InstanceDefinition", '<BooleanParameter Name="zz"><BooleanParameter Name="b"/></BooleanParameter>'),
    ("InstanceDefinition", '<StringParameter Name="zz" MaxLength="3"><BooleanParameter Name="b"/></StringParameter>'),
    ("ComponentLibrary", '<BooleanParameter Name="zz"/>'),
    ("ComponentLibrary", '<ParameterBlock Name="zz"><BooleanParameter Name="q"/></ParameterBlock>'),
    ("ComponentLibrary", '<LinearAdaptation/>'),
    ("ComponentLibrary", '<ComponentTypeSet><StringParameter Name="zz" MaxLength="2"/></ComponentTypeSet>'),
    ("ComponentType", '<BitParameter Name="zz" Pos="0" Size="1"/>'),
    ("ComponentType", '<ComponentType Name="zz"><BooleanParameter Name="q"/></ComponentType>'),
    ("ComponentType", '<ValuePair Literal="A" Numerical="1"/>'),
    ("SystemClass", '<BooleanParameter Name="zz"/>'),
    ("SystemClass", '<ComponentType Name="zz"/>'),
    ("SystemClass", '<LinearAdaptation/>'),
]


def gen_bad(src):
    k = src.choice(sorted(BAD))
    b = {"k": k, "where": src.choice(["inst", "type", "block"]), "at": src.int(0, 5), "pos": src.choice([0, 1])}
    n = src.int(1, 7)
    sz = src.choice([8, 16, 32])
    sg = src.coin()
    bs = src.choice([8, 16, 32, 64])
    lo, hi = (-(1 << (sz - 1)), (1 << (sz - 1)) - 1) if sg else (0, (1 << sz) - 1)
    tag, rest = src.choice([("IntegerParameter", ">"), ("EnumParameter", '><ValuePair Literal="A" Numerical="1"/>'),
                            ("FixedPointParameter", ' Integral="2" Fractional="3">')])
    b["v"] = {"n": n, "lt": n - src.choice([1, 2, 1000]), "sz": sz, "sg": "true" if sg else "false",
              "mm": src.choice(["Min", "Max"]), "out": src.choice([lo - 1, hi + 1, lo - 1000, hi * 2 + 5]),
              "bs": bs, "over": bs - n + src.choice([1, 2, n]), "bm": (1 << n) - 1 + src.choice([1, 2, 1 << n]),
              "fs": src.choice(["64", "16", "0", "8"]), "p": src.int(0, 7),
              "ad": src.choice(["Linear", "Logarithmic"]), "tag": tag, "rest": rest,
              "anytag": src.choice(["BooleanParameter", "IntegerParameter", "ParameterBlock", "BitParameterBlock", "StringParameter"]),
              "rest2": ">", "badsize": src.choice(["24", "64", "0", "12", "7", "33", "128", "-8", "abc", "4294967304", ""]),
              "bbs": src.choice(["0", "1", "7", "12", "24", "40", "72", "128", "-8", "abc", "1000000000"]),
              "unk": src.choice(["Foo", "integerparameter", "IntegerParam", "Configuration", "ConfigurableDomain"]),
              "alen": src.choice(["-1", "abc", "1.5", "99999999999999999999999", "0x", "2 3"]),
              "bn": src.choice(["", "a/b", "a b", "<", "/", "\u00e9\u2028x "])}
    b["v"]["qi"] = src.int(0, sz)
    b["v"]["qf"] = sz - b["v"]["qi"] + src.choice([0, 1, 5, 1 << 31])
    b["bn"] = None
    b["place"] = src.below(len(PLACES))
    b["cut"] = src.int(1, 95)
    b["chop"] = src.choice(["cut", "tag", "amp", "nest", "empty"])
    return b


def put_in(root, parent_tag, xml, at, front):
    """Insert an element in the at-th element of a kind."""
    els = [x for x in root.iter(parent_tag)]
    if not els:
        return False
    p = els[at % len(els)]
    new = list(ET.fromstring("<x>%s</x>" % xml))
    for i, e in enumerate(new):
        if front:
            p.insert(i, e)
        else:
            p.append(e)
    return True


def spoil(doc, b, ctx):
    k = b["k"]
    if k == "syntax":
        n = len(doc)
        if b["chop"] == "cut":
            return doc[:n * b["cut"] // 100]
        if b["chop"] == "tag":
            return doc.replace("</InstanceDefinition>", "", 1) if "</InstanceDefinition>" in doc else doc[:-12]
        if b["chop"] == "amp":
            return doc.replace("<SystemClass", "<SystemClass Foo=\"&bar;\"", 1)
        if b["chop"] == "nest":
            return doc + doc
        return ""
    ET.register_namespace("xi", "http://www.w3.org/2001/XInclude")
    root = ET.fromstring(doc.split("?>\n", 1)[1])
    v = dict(b["v"])
    target = {"inst": "InstanceDefinition", "type": "ComponentType", "block": "ParameterBlock"}[b["where"]]
    if not any(True for _ in root.iter(target)):
        target = "InstanceDefinition"
    if k in LEAF:
        import pfstruct
        body = LEAF[k] % {a: (x if k != "badname" or a != "bn" else pfstruct.escape(x, {'"': "&quot;"})) for a, x in v.items()}
        put_in(root, target, body, b["at"], b["pos"])
    elif k == "comptype":
        put_in(root, target, '<Component Name="zz" Type="Nowhere"/>', b["at"], b["pos"])
    elif k in ("extends", "selfext", "selfcomp", "nestcomp"):
        body = {"extends": '<ComponentType Name="ZZ" Extends="Nowhere"><BooleanParameter Name="q"/></ComponentType>',
                "selfext": '<ComponentType Name="ZZ" Extends="ZZ"><BooleanParameter Name="q"/></ComponentType>',
                "selfcomp": '<ComponentType Name="ZZ"><BooleanParameter Name="q"/><Component Name="c" Type="ZZ"/></ComponentType>',
                "nestcomp": '<ComponentType Name="ZZ"><ParameterBlock Name="b"><ParameterBlock Name="b2"%s><Component Name="c" Type="ZZ"/></ParameterBlock></ParameterBlock></ComponentType>'
                            % (' ArrayLength="2"' if b["pos"] else "")}[k]
        put_in(root, "ComponentLibrary", body, b["at"], b["pos"])
        put_in(root, "InstanceDefinition", '<Component Name="zz" Type="ZZ"/>', b["at"], b["pos"])
    elif k in ("noinst", "nolib"):
        for s in root.iter("Subsystem"):
            s.remove(s.find("InstanceDefinition" if k == "noinst" else "ComponentLibrary"))
            break
    elif k == "place":
        p, body = PLACES[b["place"]]
        if not put_in(root, p, body, b["at"], b["pos"]):
            put_in(root, "InstanceDefinition", '<LinearAdaptation/>', 0, 0)
    elif k == "noinclude":
        put_in(root, "SystemClass", '<SubsystemInclude Path="%s"/>' % ["missing.xml", "", ".", "struct-a.xml/x"][b["at"] % 4], 0, b["pos"])
    elif k == "wrongroot":
        root.tag = ["Subsystem", "ConfigurableDomains", "Foo", "ParameterFrameworkConfiguration"][b["at"] % 4]
        if root.tag == "Subsystem":
            root.set("Type", "Virtual")
    return '<?xml version="1.0" encoding="UTF-8"?>\n' + ET.tostring(root, encoding="unicode")


class C16(Check):
    pid = "C16"
    technique = ("property-based testing: generated structure descriptions (component types, extension, arrays, nested and included "
                 "files, with and without schema validation) against a reference instantiation; generated ill-formed variants")
    note = ("Every element's listing, kind, size, properties, structure document, default value and dump are compared with the "
            "reference tree; ill-formed descriptions come from a grammar of mistakes inserted at generated places. Descriptions "
            "with enormous array lengths are not judged.")
    rule = ("a started structure of at least four parameters with a component, array or block, all of whose elements were "
            "compared, or a refused ill-formed description")
    quick, thorough = 20000, 200000

    def gen(self, src, tier):
        bad = src.coin(0.4)
        o = ps.GenOpts(subs=(1, 3), rec=0.3, depth=3 if bad else src.int(2, 4), width=(1, 3 if bad else 5), arrays=0.35, blockarrays=0.35,
                       maxleaves=8 if bad else src.choice([10, 25, 45]), desc=True, adapt=0.4)
        if src.coin(0.25):
            o.types, o.extends, o.chain, o.maxleaves = (4, 7), 0.9, 0.85, o.maxleaves + 10
        st = ps.gen_struct(src, o)
        if o.types[0] > 1 and src.coin(0.7):
            # an instance of the end of the chain
            for s in st["subs"]:
                if s["types"]:
                    s["inst"].append({"k": "comp", "n": "nz", "type": s["types"][-1]["name"]})
                    if s["type"] == "REC":
                        s["inst"][-1]["map"] = "Obj:nz"
        for s in st["subs"]:
            if src.coin(0.3):
                s["desc"] = ps.gen_words(src)
            for t in s["types"]:
                if src.coin(0.3):
                    t["desc"] = ps.gen_words(src)
            if s["type"] == "REC" and bad:
                s["type"] = "Virtual"
                for e in s["inst"]:
                    strip_maps(e)
            for e in walk_elems(s):
                if e["k"] in ("int", "fix", "float") and src.coin(0.2):
                    e["unit"] = src.choice(["dB", "ms", "a & b"])
                if e["k"] == "comp" and src.coin(0.3):
                    e["desc"] = ps.gen_words(src)
                if e["k"] == "bits" and src.coin(0.5):
                    for b in e["bits"]:
                        if src.coin(0.4):
                            b["desc"] = ps.gen_words(src)
                if e["k"] == "bool" and src.coin(0.2):
                    e["size"] = 8
        pack = {"include": [src.coin(0.3 if not bad else 0) for _ in range(3)], "nest": [src.weighted([(3, 0), (2, 1), (2, 2), (2, 3), (1, 4)]) for _ in range(4)],
                "schema": src.coin(0.35), "rel": src.coin(0.5)}
        if bad:
            pack["nest"] = [x if x != 4 else 0 for x in pack["nest"]]
        case = {"st": st, "pack": pack, "port": src.int(0, 65000)}
        if bad:
            case["bad"] = gen_bad(src)
        else:
            case["probe"] = [src.below(1 << 20) for _ in range(3)]
            case["writes"] = [ps.gen_text(src, l, False, 0.0) for l in ps.instantiate(st).leaves()] if src.coin(0.5) else []
        return case

    def start(self, case, ctx):
        conf = package(ctx, case)
        q = [["reset"], ["rfault", "failRead", 1, "*"], ["new", "a", conf], ["opt", "a", "noremote", 1]]
        if case["pack"]["schema"]:
            q += [["opt", "a", "schema", os.path.join(os.environ.get("VERIF_REPO", "/repo"), "schemas")], ["opt", "a", "validate", 1]]
        must(ctx.run(q))
        return ctx.run([["start", "a"]])[0]

    def run(self, case, ctx):
        r = self.start(case, ctx)
        schema = case["pack"]["schema"]
        bad = case.get("bad")
        if bad:
            always, by_schema = BAD[bad["k"]]
            if r[0] != "1":
                expect(r[1].strip(), "an ill-formed description (%s) is refused without a message", bad["k"])
                return {"nontrivial": True, "tags": ["bad:" + bad["k"], "refused"]}
            expect(not always and not (by_schema and schema), "a description with %s (%s) is accepted%s", bad["k"],
                   LEAF[bad["k"]] % bad["v"] if bad["k"] in LEAF else PLACES[bad["place"]] if bad["k"] == "place" else bad["where"],
                   " by the schemas" if schema else "")
            # accepted: it must at least be usable
            lines = self.cmd(ctx, "listParameters", "/").splitlines()
            ctx.run([["cmd", "a", "getParameter", l.rsplit(" [", 1)[0]] for l in lines if l.strip()])
            ctx.run([["cmd", "a", "dumpElement", "/sys"], ["cmd", "a", "getElementStructureXML", "/sys"],
                     ["cmd", "a", "setTuningMode", "on"], ["cmd", "a", "getElementXML", "/sys"], ["cmd", "a", "getElementBytes", "/sys"]])
            return {"nontrivial": False, "tags": ["bad:" + bad["k"], "accepted"]}
        expect(r[0] == "1", "a well-formed description is refused: %s", r[1:])
        root = ps.instantiate(case["st"])
        for n in root.all():
            if n.kind in ("sub", "bit"):
                n.desc = n.e.get("desc") or ""
        m = ps.Values(root)
        nodes = root.all()
        check_all(ctx, m, False, False, what="after start")
        # listing
        got = self.cmd(ctx, "listParameters", "/").splitlines()
        want = ["%s [%s]" % (l.path, l.framework_kind()) for l in root.leaves()]
        expect([g for g in got if g] == want, "listParameters / gives %s, expected %s", got, want)
        out = ctx.run([["cmd", "a", c, n.path] for n in nodes for c in ("listElements", "getElementSize", "showProperties", "listParameters")])
        for i, n in enumerate(nodes):
            el, size, props, params = out[4 * i:4 * i + 4]
            expect(el[0] == size[0] == props[0] == params[0] == "1", "%s can not be inspected: %s", n.path, out[4 * i:4 * i + 4])
            want = ["%s [%s]" % (x.path, x.framework_kind()) for x in [n] + n.kids]
            expect([x for x in el[1].splitlines() if x] == want, "listElements %s gives %s, expected %s", n.path, el[1], want)
            want = ["%s [%s]" % (x.path, x.framework_kind()) for x in n.leaves()]
            expect([x for x in params[1].splitlines() if x] == want, "listParameters %s gives %s, expected %s", n.path, params[1], want)
            expect(size[1].strip() == "%d byte(s)" % n.size(), "size of %s is %s, expected %d", n.path, size[1], n.size())
            g = sorted(x.strip() for x in props[1].splitlines() if x.strip())
            w = properties(n)
            if n.kind == "comp" and not n.e.get("desc"):
                g = [x for x in g if not x.startswith("Description: ")]
            if n.kind == "int" and (n.e.get("adapt") or {}).get("log") and n.e["adapt"].get("floor") is None:
                g = [x for x in g if "FloorValue" not in x]
            expect(g == w, "properties of %s are %s, expected %s", n.path, g, w)
        # structure document, dump, handles
        x = self.cmd(ctx, "getElementStructureXML", "/sys")
        want = structure(root)
        comp_desc(want, root, got := parsed(ET.fromstring(x.encode())))
        same_structure(got, want, "")
        d = self.cmd(ctx, "dumpElement", "/sys").rstrip("\n").split("\n")
        w = []

        def dump(n, depth):
            t = "%s- %s: %s" % ("    " * depth, n.framework_kind(), n.name)
            if n.is_leaf() and n.kind != "str":
                t += " = " + m.text(n.path)
            w.append(t)
            for k in n.kids:
                dump(k, depth + 1)
        dump(root, 0)
        expect(d == w, "dumpElement gives %s, expected %s", d, w)
        q = []
        picks = [nodes[p % len(nodes)] for p in case["probe"]]
        for i, n in enumerate(picks):
            q += [["hnew", "a", "h%d" % i, n.path, "e"], ["h", "a", "h%d" % i, "info"]]
        res = ctx.run(q)
        for i, n in enumerate(picks):
            a, info = res[2 * i], res[2 * i + 1]
            if n.kind in ("system", "sub"):
                continue
            expect(a[0] == "1", "no handle on %s: %s", n.path, a)
            want = ["1", n.name, n.path, n.framework_kind(), str(n.size())]
            expect(info[:5] == want, "handle on %s says %s, expected %s", n.path, info, want)
            expect(info[5] == ("1" if n.is_leaf() else "0"), "handle on %s: isParameter %s", n.path, info[5])
            if n.is_leaf():
                expect((info[7], info[8]) == (("1", str(n.arr)) if n.kind in ps.INTLIKE and n.arr else ("0", "0")),
                       "handle on %s: array %s of length %s", n.path, info[7], info[8])
            expect(info[10:] == [k.name for k in n.kids], "handle on %s has children %s", n.path, info[10:])
        # nothing else exists
        paths = {n.path for n in nodes}
        ghosts = []
        for p in case["probe"]:
            n = nodes[p % len(nodes)]
            ghosts += [n.path + "/ghost", n.path + "x", "%s/%d" % (n.path, n.arr), n.path.replace("/s0/", "/s9/"),
                       (n.parent.path if n.parent else "") + "/" + nodes[(p // 7) % len(nodes)].name,
                       n.path[:-1], n.path[1:], n.path.replace("/sys", "/sysx", 1), n.path.replace("/sys", "/sy", 1), n.path.upper(), "x" + n.path]
        ghosts = [g for g in ghosts if g and g not in paths and g.rstrip("/") not in paths]
        ways = ("listElements", "getParameter", "getElementSize", "showProperties", "dumpElement", "getElementBytes", "listParameters",
                "getElementStructureXML", "getElementXML", "showMapping", "listBelongingDomains")
        asked = [(g, ways[(i + p) % len(ways)]) for i, g in enumerate(ghosts) for p in (0, case["probe"][0])]
        for (g, c), r in zip(asked, ctx.run([["cmd", "a", c, g] for g, c in asked])):
            expect(r[0] == "0" and any(r[1:]), "%s exists for %s: %s", g, c, r)
        for g, r in zip(ghosts, ctx.run([["hnew", "a", "g%d" % i, g, "ep"[i % 2]] for i, g in enumerate(ghosts)])):
            expect(r[0] == "0" and any(r[1:]), "there is a handle on %s: %s", g, r)
        # instances are independent copies
        if case["writes"]:
            must(ctx.run([["cmd", "a", "setTuningMode", "on"]]))
            for l, t in zip(root.leaves(), case["writes"]):
                if trim(t) != t or not t or not m.set(l.path, t, False):
                    continue
                must(ctx.run([["cmd", "a", "setParameter", l.path, t]]), "setting %s to %r" % (l.path, t))
            check_all(ctx, m, False, False, what="after setting every parameter")
        tags = ["valid", "schema" if schema else "noschema"] + [t for t, f in (
            ("extends", any(t.get("ext") for s in case["st"]["subs"] for t in s["types"])),
            ("comparray", any(n.kind == "comp" and n.arr for n in nodes)),
            ("include", any(case["pack"]["include"]))) if f]
        return {"nontrivial": len(root.leaves()) >= 4 and any(n.kind in ("comp", "block") or n.arr for n in nodes), "tags": tags}

    def cmd(self, ctx, *a):
        r = ctx.run([["cmd", "a"] + list(a)])[0]
        expect(r[0] == "1", "%s fails: %s", a, r[1])
        return r[1]


def comp_desc(want, n, got):
    """A component without a description of its own may show its type's: not judged."""
    if n.kind == "comp" and not n.e.get("desc") and len(got) == 3:
        got[1].pop("Description", None)
    for k, w, g in zip(n.kids, want[2], got[2]):
        comp_desc(w, k, g)


def walk_elems(s):
    def rec(es):
        for e in es:
            yield e
            yield from rec(e.get("kids", []))
    for t in s["types"]:
        yield from rec(t["kids"])
    yield from rec(s["inst"])


def strip_maps(e):
    e.pop("map", None)
    for k in e.get("kids", []):
        strip_maps(k)


CHECK = C16
