"""Generated parameter structures: description documents and the reference model of what they mean."""
import re, struct
from fractions import Fraction
from xml.sax.saxutils import escape, quoteattr

SYS = "sys"
INTLIKE = ("bool", "int", "enum", "fix", "float")
WS = " \n\r\t\v\f"
TAG = {"bool": "BooleanParameter", "int": "IntegerParameter", "enum": "EnumParameter",
       "fix": "FixedPointParameter", "float": "FloatingPointParameter", "str": "StringParameter",
       "bits": "BitParameterBlock", "bit": "BitParameter", "block": "ParameterBlock", "comp": "Component"}
FLT_MAX = Fraction(struct.unpack("<f", b"\xff\xff\x7f\x7f")[0])


# ---------------------------------------------------------------- generation
class GenOpts:
    def __init__(self, **kw):
        self.kinds = ["int", "bool", "enum", "fix", "float", "str", "bits"]
        self.subs = (1, 2)
        self.rec = 0.5          # probability that a subsystem is a recording one
        self.depth = 3
        self.width = (1, 4)
        self.arrays = 0.25
        self.blockarrays = 0.2
        self.comps = True
        self.types = (1, 3)     # component types of a subsystem
        self.extends = 0.4
        self.chain = 0.0        # extension of the type before, for deep chains
        self.maxleaves = 24
        self.mapdepth = True    # objects may be below top-level elements
        self.desc = False
        self.adapt = 0.0
        self.big = 0.07         # probability that a description has an aspect larger than usual
        self.noise = 0.12       # probability that the documents are written in an unusual way
        self.large = None       # which one: of the description being generated
        self.__dict__.update(kw)

    def much(self, src, what):
        return self.large == what and src.coin(0.6)


def gen_leaf(src, name, o, kinds=None):
    k = src.choice(kinds or o.kinds)
    e = {"k": k, "n": name}
    if k == "int":
        e["size"] = src.choice([8, 16, 32])
        e["signed"] = src.coin(0.5)
        lo, hi = int_bounds(e)
        m = src.int(0, 5)
        if m == 1:
            a, b = sorted([gen_bound(src, lo, hi), gen_bound(src, lo, hi)])
            e["min"], e["max"] = a, b
        elif m == 2:
            e["max"] = gen_bound(src, lo, hi)
        elif m == 3:
            e["min"] = gen_bound(src, lo, hi)
        if o.adapt and src.coin(o.adapt):
            e["adapt"] = gen_adapt(src)
    elif k == "enum":
        e["size"] = src.choice([8, 16, 32])
        lo, hi = -(1 << (e["size"] - 1)), (1 << (e["size"] - 1)) - 1
        nums = []
        for i in range(src.int(5, 24) if o.much(src, "pairs") else src.int(1, 4)):
            v = src.weighted([(4, i), (2, gen_bound(src, lo, hi)), (1, lo), (1, hi)])
            if v not in nums:
                nums.append(v)
        e["pairs"] = [["L%d" % i, v] for i, v in enumerate(nums)]
    elif k == "fix":
        e["size"] = src.choice([8, 16, 32])
        e["i"] = src.int(0, e["size"] - 1)
        e["f"] = src.int(0, e["size"] - 1 - e["i"])
        if src.coin(0.4):
            e["f"] = e["size"] - 1 - e["i"]
    elif k == "float":
        if src.coin(0.4):
            a, b = sorted([src.int(-400, 400), src.int(-400, 400)])
            d = src.choice([1, 4, 8])
            e["min"], e["max"] = str(Fraction(a, d).__float__()), str(float(Fraction(b, d)))
    elif k == "str":
        e["maxlen"] = src.choice([8, 0, 1, 3, 20, 60]) if not o.much(src, "string") else src.int(100, 700)
    elif k == "bits":
        e["size"] = src.choice([8, 16, 32, 64])
        pos, bits = 0, []
        most = 4 if not o.much(src, "bits") else 16
        while pos < e["size"] and len(bits) < most:
            if src.coin(0.25):
                pos += src.int(0, 3)
            left = e["size"] - pos
            if left <= 0:
                break
            sz = min(left, src.choice([1, 2, 3, 5, 8, 13, 31, 32, 33, 64] if most == 4 else [1, 2, 3, 1, 5]))
            b = {"n": "b%d" % len(bits), "pos": pos, "size": sz}
            if sz > 1 and src.coin(0.3):
                b["max"] = src.int(0, min((1 << sz) - 1, 1 << 16))
            bits.append(b)
            pos += sz
            if bits and not src.coin(0.75 if most == 4 else 0.97):
                break
        e["bits"] = bits or [{"n": "b0", "pos": 0, "size": 1}]
    if k in INTLIKE and src.coin(o.arrays):
        e["arr"] = src.int(1, 5)
    if k in INTLIKE and o.much(src, "array"):
        e["arr"] = src.int(6, 40) if src.coin() else src.int(40, 300)
    if o.desc and src.coin(0.4):
        e["desc"] = gen_words(src)
    return e


def gen_words(src):
    return " ".join(src.choice(["some", "text", "<&>", "d\u00e9crit", "\"q\"", "x=1"]) for _ in range(src.int(1, 3)))


def gen_bound(src, lo, hi):
    return src.weighted([(3, src.int(max(lo, -20), min(hi, 40))), (1, lo), (1, hi), (2, src.int(lo, hi))])


def gen_adapt(src):
    a = {"log": src.coin(0.3)}
    if src.coin(0.7):
        a["off"] = src.int(-20, 20)
    if src.coin(0.7):
        a["num"] = src.choice(["2", "10", "0.5", "-3", "1", "100"])
    if src.coin(0.5):
        a["den"] = src.choice(["2", "4", "0.25", "10", "-1"])
    if a["log"]:
        if src.coin(0.5):
            a["base"] = src.choice(["2", "10", "1.5"])
        a["floor"] = str(src.int(-60, 10))
    return a


def gen_struct(src, o, name_prefix=""):
    st = {"name": SYS, "subs": []}
    if src.coin(o.noise):
        st["noise"] = src.int(0, 999)
    budget = [o.maxleaves]
    o.large = src.choice(["array", "string", "wide", "wide", "bits", "pairs", "blocks"]) if src.coin(o.big) else None
    if o.large == "wide":
        budget[0] += 16
    for si in range(src.int(*o.subs)):
        rec = src.coin(o.rec)
        sub = {"name": "s%d" % si, "type": "REC" if rec else "Virtual", "types": [], "inst": []}
        names = [0]

        def nm():
            names[0] += 1
            return "n%d" % names[0]

        def gen_elem(depth, types):
            if depth > 0 and budget[0] > 2:
                r = src.int(0, 9)
                if r >= 8 and types:
                    t = src.choice(types)
                    e = {"k": "comp", "n": nm(), "type": t["name"]}
                    if src.coin(o.blockarrays):
                        e["arr"] = src.int(1, 3)
                    budget[0] -= 2 * e.get("arr", 1)
                    return e
                if r >= 6:
                    e = {"k": "block", "n": nm()}
                    if src.coin(o.blockarrays):
                        e["arr"] = src.int(1, 3) if not o.much(src, "blocks") else src.int(4, 14)
                        budget[0] -= 3
                    e["kids"] = [gen_elem(depth - 1, types) for _ in range(src.int(1, 3) if not o.much(src, "wide") else src.int(4, 12))]
                    if o.desc and src.coin(0.4):
                        e["desc"] = gen_words(src)
                    return e
            budget[0] -= 1
            return gen_leaf(src, nm(), o)
        if o.comps and src.coin(0.5):
            for ti in range(src.int(*o.types)):
                t = {"name": "T%d" % ti, "kids": []}
                if ti and src.coin(o.extends):
                    t["ext"] = "T%d" % (ti - 1 if src.coin(o.chain) else src.int(0, ti - 1))
                t["kids"] = [gen_elem(1, sub["types"]) for _ in range(src.int(1, 3) if not o.much(src, "wide") else src.int(4, 9))]
                sub["types"].append(t)
        sub["inst"] = src.list(o.width[0], o.width[1], lambda i: gen_elem(o.depth - 1, sub["types"]),
                               avg=2.5)
        if rec:
            assign_objects(src, sub["inst"], o.mapdepth)
        st["subs"].append(sub)
    return st


def assign_objects(src, elems, deep):
    """Put an object on every element or below it, so that each parameter belongs to exactly one."""
    for e in elems:
        if e["k"] == "block" and not e.get("arr") and deep and src.coin(0.5):
            assign_objects(src, e["kids"], deep)
        else:
            e["map"] = "Obj:%s" % e["n"]


# ---------------------------------------------------------------- documents
def elem_xml(e, ind=""):
    k = e["k"]
    a = {"Name": e["n"]}
    if e.get("desc") is not None:
        a["Description"] = e["desc"]
    if e.get("arr") is not None:
        a["ArrayLength"] = e["arr"]
    if e.get("map") is not None:
        a["Mapping"] = e["map"]
    body = ""
    if k in ("int", "enum", "fix", "bits"):
        a["Size"] = e["size"]
    if e.get("unit"):
        a["Unit"] = e["unit"]
    if k == "bool" and e.get("size"):
        a["Size"] = 8
    if k == "int":
        if "signed" in e:
            a["Signed"] = "true" if e["signed"] else "false"
        for x, y in (("min", "Min"), ("max", "Max")):
            if e.get(x) is not None:
                a[y] = e[x]
        if e.get("adapt"):
            ad = e["adapt"]
            b = {}
            for x, y in (("off", "Offset"), ("num", "SlopeNumerator"), ("den", "SlopeDenominator"),
                         ("base", "LogarithmBase"), ("floor", "FloorValue")):
                if ad.get(x) is not None:
                    b[y] = ad[x]
            body = "%s<%s%s/>\n" % (ind + " ", "LogarithmicAdaptation" if ad.get("log") else "LinearAdaptation", attrs(b))
    elif k == "enum":
        body = "".join("%s<ValuePair Literal=%s Numerical=%s/>\n" % (ind + " ", quoteattr(l), quoteattr(str(n)))
                       for l, n in e["pairs"])
    elif k == "fix":
        a["Integral"], a["Fractional"] = e["i"], e["f"]
    elif k == "float":
        for x, y in (("min", "Min"), ("max", "Max")):
            if e.get(x) is not None:
                a[y] = e[x]
    elif k == "str":
        a["MaxLength"] = e["maxlen"]
    elif k == "bits":
        for b in e["bits"]:
            c = {"Name": b["n"], "Pos": b["pos"], "Size": b["size"]}
            if b.get("max") is not None:
                c["Max"] = b["max"]
            if b.get("desc"):
                c["Description"] = b["desc"]
            body += "%s<BitParameter%s/>\n" % (ind + " ", attrs(c))
    elif k == "block":
        body = "".join(elem_xml(c, ind + " ") for c in e["kids"])
    elif k == "comp":
        a["Type"] = e["type"]
    a.update(e.get("raw", {}))
    if not body:
        return "%s<%s%s/>\n" % (ind, TAG[k], attrs(a))
    return "%s<%s%s>\n%s%s</%s>\n" % (ind, TAG[k], attrs(a), body, ind, TAG[k])


def attrs(a):
    return "".join(" %s=%s" % (k, quoteattr(str(v), {"\n": "&#10;", "\t": "&#9;", "\r": "&#13;"})) for k, v in a.items())


def sub_xml(sub):
    a = {"Name": sub["name"], "Type": sub["type"]}
    if sub.get("map") is not None:
        a["Mapping"] = sub["map"]
    if sub.get("desc") is not None:
        a["Description"] = sub["desc"]
    x = "<Subsystem%s>\n<ComponentLibrary>\n" % attrs(a)
    for t in sub.get("types", []):
        b = {"Name": t["name"]}
        if t.get("ext") is not None:
            b["Extends"] = t["ext"]
        if t.get("map") is not None:
            b["Mapping"] = t["map"]
        if t.get("desc") is not None:
            b["Description"] = t["desc"]
        x += " <ComponentType%s>\n%s </ComponentType>\n" % (attrs(b), "".join(elem_xml(c, "  ") for c in t["kids"]))
    x += "</ComponentLibrary>\n<InstanceDefinition>\n"
    x += "".join(elem_xml(e, " ") for e in sub["inst"])
    return x + "</InstanceDefinition>\n</Subsystem>\n"


def struct_xml(st):
    return ('<?xml version="1.0" encoding="UTF-8"?>\n<SystemClass Name=%s>\n' % quoteattr(st["name"]) +
            "".join(sub_xml(s) for s in st["subs"]) + "</SystemClass>\n")


def config_xml(st, built, struct_path, settings_path=None, tuning=True, plugin=True, port=None):
    x = '<?xml version="1.0" encoding="UTF-8"?>\n<ParameterFrameworkConfiguration SystemClassName=%s TuningAllowed="%s"%s>\n' % (
        quoteattr(st["name"]), "true" if tuning else "false", "" if port is None else ' ServerPort=%s' % quoteattr(str(port)))
    x += "<SubsystemPlugins>"
    if plugin:
        x += "<Location Folder=%s><Plugin Name=%s/></Location>" % (quoteattr(built.plugin_dir), quoteattr(built.plugin))
    x += "</SubsystemPlugins>\n<StructureDescriptionFileLocation Path=%s/>\n" % quoteattr(struct_path)
    if settings_path:
        x += "<SettingsConfiguration><ConfigurableDomainsFileLocation Path=%s/></SettingsConfiguration>\n" % quoteattr(settings_path)
    return x + "</ParameterFrameworkConfiguration>\n"


# ---------------------------------------------------------------- numbers
def int_bounds(e):
    if e.get("signed"):
        return -(1 << (e["size"] - 1)), (1 << (e["size"] - 1)) - 1
    return 0, (1 << e["size"]) - 1


def int_range(e):
    lo, hi = int_bounds(e)
    return e.get("min", lo) if e.get("min") is not None else lo, e.get("max", hi) if e.get("max") is not None else hi


def parse_int(t, lo, hi):
    """The integer a text denotes, if it is one that fits lo..hi; decimal or 0x hexadecimal."""
    if re.fullmatch(r"0x[0-9a-fA-F]+", t):
        v = int(t[2:], 16)
    elif re.fullmatch(r"[+-]?[0-9]+", t):
        if "-" in t and lo >= 0:
            return None
        v = int(t)
    else:
        return None
    return v if lo <= v <= hi else None


REAL = re.compile(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?")


def parse_real(t):
    if not REAL.fullmatch(t):
        return None
    m = re.search(r"[eE]([+-]?[0-9]+)$", t)
    if m and abs(int(m.group(1))) > 400:
        return None
    return Fraction(t)


def f32_bits(x):
    return struct.unpack("<I", struct.pack("<f", x))[0]


def bits_f32(b):
    return struct.unpack("<f", struct.pack("<I", b & 0xffffffff))[0]


def nearest_f32(fr, neg=False):
    """Bits of the single-precision number nearest to a fraction (ties to even), None on overflow."""
    sign = fr < 0 or (fr == 0 and neg)
    a = abs(fr)
    if a > FLT_MAX:
        if a >= FLT_MAX + Fraction(2) ** 103:
            return None
        return f32_bits(float(FLT_MAX)) | (0x80000000 if sign else 0)
    lo, hi = 0, 0x7f7fffff
    while lo < hi:
        mid = (lo + hi + 1) // 2
        if Fraction(bits_f32(mid)) <= a:
            lo = mid
        else:
            hi = mid - 1
    if lo < 0x7f7fffff:
        d0, d1 = a - Fraction(bits_f32(lo)), Fraction(bits_f32(lo + 1)) - a
        if d1 < d0 or (d1 == d0 and lo & 1):
            lo += 1
    return lo | (0x80000000 if sign else 0)


def f64_of(fr, neg=False):
    try:
        v = float(fr)
    except OverflowError:
        return None
    return -0.0 if v == 0 and neg else v


def round_half_away(fr):
    n = abs(fr) + Fraction(1, 2)
    v = n.numerator // n.denominator
    return -v if fr < 0 else v


def sext(v, size):
    v &= (1 << size) - 1
    return v - (1 << size) if v >> (size - 1) else v


# ---------------------------------------------------------------- scalar codec
def esize(e):
    return {"bool": 8, "float": 32}.get(e["k"]) or e["size"]


def encode(e, t, raw):
    """Stored unsigned integer for a text, or None when the text is illegal."""
    k = e["k"]
    if k == "bool":
        return {"0": 0, "1": 1, "0x0": 0, "0x1": 1}.get(t)
    size = esize(e)
    mask = (1 << size) - 1
    if k == "int":
        lo, hi = int_range(e)
        if e.get("signed") and t[:2] == "0x":
            v = parse_int(t, 0, mask)
            if v is None:
                return None
            v = sext(v, size)
        else:
            v = parse_int(t, *int_bounds(e))
        return v & mask if v is not None and lo <= v <= hi else None
    if k == "enum":
        nums = [n for _, n in e["pairs"]]
        v = parse_int(t, -(1 << 31), (1 << 31) - 1)
        if v is None and raw:
            v = parse_int(t, 0, (1 << 32) - 1)
        if v is None:
            v = dict((l, n) for l, n in reversed(e["pairs"])).get(t)
            if v is None:
                return None
        elif raw:
            if size < 32 and not -(1 << (size - 1)) <= v < (1 << size):
                return None
            v = sext(v, size)
        return v & mask if v in nums else None
    if k == "fix":
        if raw:
            if t[:2] in ("0x", "0X"):
                return parse_int(t, 0, mask)
            v = parse_int(t, -(1 << (size - 1)), (1 << (size - 1)) - 1)
            return None if v is None else v & mask
        fr = parse_real(t)
        if fr is None:
            return None
        d = f64_of(fr)
        return None if d is None else encode_fix(e, d)
    if k == "float":
        lo, hi = flt_range(e)
        if raw:
            v = parse_int(t, 0, mask)
            if v is None or (v & 0x7f800000) == 0x7f800000:
                return None
        else:
            fr = parse_real(t)
            if fr is None:
                return None
            v = nearest_f32(fr, t.startswith("-"))
            if v is None:
                return None
        return v if lo <= bits_f32(v) <= hi else None
    raise AssertionError(k)


def encode_fix(e, d):
    size = e["size"]
    top = Fraction((1 << (e["i"] + e["f"])) - 1, 1 << e["f"])
    bottom = -Fraction(1 << e["i"])
    if d != d or abs(d) == float("inf") or not bottom <= Fraction(d) <= top:
        return None
    v = round_half_away(Fraction(d) * (1 << e["f"]))
    return (v << (size - 1 - e["i"] - e["f"])) & ((1 << size) - 1)


def flt_range(e):
    m = float(FLT_MAX)
    lo = bits_f32(nearest_f32(Fraction(e["min"]))) if e.get("min") is not None else -m
    hi = bits_f32(nearest_f32(Fraction(e["max"]))) if e.get("max") is not None else m
    return lo, hi


def flt_text(v):
    """Shortest of 6 to 9 significant digits that reads back as the same number."""
    x = bits_f32(v)
    for p in range(6, 10):
        t = "%.*g" % (p, x)
        if x != x or abs(x) == float("inf") or nearest_f32(Fraction(t), t.startswith("-")) == v:
            return t
    return t


def decode(e, v, raw, hx):
    """Canonical text of a stored unsigned integer."""
    k, size = e["k"], esize(e)
    if k == "bool":
        return ("0x" if raw and hx else "") + ("1" if v else "0")
    if k == "int":
        if raw and hx:
            return "0x%0*X" % (size // 4, v)
        return str(sext(v, size) if e.get("signed") else v)
    if k == "enum":
        if raw:
            return "0x%0*X" % (size // 4, v) if hx else str(v)
        for l, n in e["pairs"]:
            if n == sext(v, size):
                return l
        return ""
    if k == "fix":
        if raw:
            return "0x%0*X" % (size // 4, v) if hx else str(sext(v, size))
        q = sext(v, size) >> (size - 1 - e["i"] - e["f"])
        return "%.*f" % (e["f"], q / float(1 << e["f"]))
    if k == "float":
        if raw:
            if hx:
                return "0x%08x" % v
            return str(v)
        return flt_text(v)


def default_of(e):
    k = e["k"]
    if k == "int":
        return int_range(e)[0] & ((1 << e["size"]) - 1)
    if k == "enum":
        return e["pairs"][0][1] & ((1 << e["size"]) - 1)
    if k == "float":
        lo, hi = flt_range(e)
        return nearest_f32(Fraction(lo if lo > 0 else hi if hi < 0 else 0))
    return 0


# ---------------------------------------------------------------- instances
class Node:
    def __init__(self, kind, name, parent, e=None):
        self.kind, self.name, self.parent, self.e = kind, name, parent, e
        self.kids = []
        self.path = (parent.path if parent else "") + "/" + name
        self.arr = 0
        self.desc = (e or {}).get("desc") or ""
        if parent:
            parent.kids.append(self)

    def leaves(self):
        if self.is_leaf():
            return [self]
        return [l for c in self.kids for l in c.leaves()]

    def is_leaf(self):
        return self.kind in INTLIKE or self.kind in ("str", "bit")

    def all(self):
        out = [self]
        for c in self.kids:
            out += c.all()
        return out

    def size(self):
        if self.kind in INTLIKE:
            return esize(self.e) // 8 * max(1, self.arr)
        if self.kind == "str":
            return self.e["maxlen"] + 1
        if self.kind == "bits":
            return self.e["size"] // 8
        if self.kind == "bit":
            return 0
        return sum(c.size() for c in self.kids)

    def ancestors(self):
        n, out = self.parent, []
        while n:
            out.append(n)
            n = n.parent
        return out

    def under(self, other):
        return self is other or other in self.ancestors()

    def framework_kind(self):
        if self.kind == "system":
            return "SystemClass"
        if self.kind == "sub":
            return "Subsystem"
        if self.kind == "comp":
            return "ComponentInstance"
        return TAG[self.kind]


def instantiate(st):
    root = Node("system", st["name"], None)
    for sub in st["subs"]:
        s = Node("sub", sub["name"], root, sub)
        types = {}
        for t in sub.get("types", []):
            types.setdefault(t["name"], t)
        for e in sub["inst"]:
            _inst(e, s, types)
    return root


def _fill(n, e, types):
    if e["k"] == "block":
        for c in e["kids"]:
            _inst(c, n, types)
    else:
        _fill_type(n, e["type"], types)


def _fill_type(n, tname, types):
    """A component type gives its own children, then those of the type it extends."""
    t = types[tname]
    for c in t["kids"]:
        _inst(c, n, types)
    if t.get("ext"):
        _fill_type(n, t["ext"], types)


def _inst(e, parent, types):
    k = e["k"]
    n = Node(k, e["n"], parent, e)
    arr = e.get("arr") or 0
    if k in INTLIKE:
        n.arr = arr
    elif k == "bits":
        for b in e["bits"]:
            Node("bit", b["n"], n, b)
    elif k in ("block", "comp"):
        if arr:
            n.arr = arr
            for i in range(arr):
                c = Node(k, str(i), n, e)
                _fill(c, e, types)
        else:
            _fill(n, e, types)
    return n


# ---------------------------------------------------------------- values
class Values:
    """Values of all parameters. Numbers are held as lists of stored unsigned integers, strings as
    text, bits as integers; what bit blocks hold outside of their bits is not modelled."""

    def __init__(self, root, init="default"):
        self.root = root
        self.nodes = {n.path: n for n in root.all()}
        self.leaves = root.leaves()
        self.v = {}
        self.gap = {}
        for l in self.leaves:
            self.v[l.path] = self.initial(l, init)

    def copy(self):
        c = Values.__new__(Values)
        c.root, c.nodes, c.leaves = self.root, self.nodes, self.leaves
        c.v = {k: (list(x) if isinstance(x, list) else x) for k, x in self.v.items()}
        c.gap = dict(self.gap)
        return c

    def initial(self, l, init):
        if l.kind in INTLIKE:
            return [default_of(l.e) if init == "default" else 0] * max(1, l.arr)
        return "" if l.kind == "str" else 0

    def find(self, path):
        """(leaf, index or None), or None."""
        n = self.nodes.get(path)
        if n is not None:
            return (n, None) if n.is_leaf() else None
        base, _, idx = path.rpartition("/")
        n = self.nodes.get(base)
        if n is not None and n.kind in INTLIKE and n.arr and re.fullmatch(r"[0-9]+", idx) and int(idx) < n.arr:
            return n, int(idx)
        return None

    def encode_all(self, n, text, raw, idx=None):
        """New value of leaf n for a text, or None if it must be refused."""
        cur = self.v[n.path]
        if n.kind == "str":
            b = text.encode("utf-8", "surrogateescape")
            return text if len(b) <= n.e["maxlen"] else None
        if n.kind == "bit":
            v = parse_bit(text)
            mx = n.e.get("max")
            mx = (1 << n.e["size"]) - 1 if mx is None else mx
            return v if v is not None and v <= mx else None
        if not n.arr:
            v = encode(n.e, text, raw)
            return None if v is None else [v]
        items = [x for x in re.split("[%s,]+" % WS, text) if x]
        start = idx or 0
        if start + len(items) > n.arr:
            return None
        new = list(cur)
        for i, t in enumerate(items):
            v = encode(n.e, t, raw)
            if v is None:
                return None
            new[start + i] = v
        return new

    def set(self, path, text, raw):
        f = self.find(path)
        if f is None:
            return False
        new = self.encode_all(f[0], text, raw, f[1])
        if new is None:
            return False
        self.v[f[0].path] = new
        return True

    def text_of(self, n, value, raw=False, hx=False, idx=None):
        if n.kind == "str":
            return value
        if n.kind == "bit":
            return ("0x%X" if raw and hx else "%d") % value
        if idx is not None:
            return decode(n.e, value[idx], raw, hx)
        return " ".join(decode(n.e, x, raw, hx) for x in value)

    def text(self, path, raw=False, hx=False):
        n, idx = self.find(path)
        return self.text_of(n, self.v[n.path], raw, hx, idx)

    def bytes(self, n):
        if n.kind in INTLIKE:
            return b"".join(x.to_bytes(esize(n.e) // 8, "little") for x in self.v[n.path])
        if n.kind == "str":
            b = self.v[n.path].encode("utf-8", "surrogateescape")
            return b + b"\0" * (n.e["maxlen"] + 1 - len(b))
        if n.kind == "bits":
            x = self.gap.get(n.path, 0)
            for b in n.kids:
                x |= self.v[b.path] << b.e["pos"]
            return x.to_bytes(n.e["size"] // 8, "little")
        if n.kind == "bit":
            return b""
        return b"".join(self.bytes(c) for c in n.kids)

    def set_bytes(self, n, b):
        """Inverse of bytes() for legal images."""
        for c in n.all():
            if c.kind in INTLIKE:
                w = esize(c.e) // 8
                self.v[c.path] = [int.from_bytes(b[i * w:(i + 1) * w], "little") for i in range(max(1, c.arr))]
                b = b[w * max(1, c.arr):]
            elif c.kind == "str":
                self.v[c.path] = b[:c.e["maxlen"] + 1].split(b"\0")[0].decode("utf-8", "surrogateescape")
                b = b[c.e["maxlen"] + 1:]
            elif c.kind == "bits":
                w = c.e["size"] // 8
                x = int.from_bytes(b[:w], "little")
                g = x
                for k in c.kids:
                    m = ((1 << k.e["size"]) - 1)
                    self.v[k.path] = (x >> k.e["pos"]) & m
                    g &= ~(m << k.e["pos"])
                self.gap[c.path] = g
                b = b[w:]

    def snapshot(self, raw=False, hx=False):
        return {l.path: self.text(l.path, raw, hx) for l in self.leaves}


def parse_bit(t):
    if re.fullmatch(r"0x[0-9a-fA-F]+", t):
        return int(t, 16)
    if re.fullmatch(r"\+?[0-9]+", t):
        return int(t)
    return None


# ---------------------------------------------------------------- value texts
def gen_stored(src, e):
    """A legal stored value of a numeric parameter."""
    k, size = e["k"], esize(e)
    mask = (1 << size) - 1
    if k == "bool":
        return src.int(0, 1)
    if k == "int":
        lo, hi = int_range(e)
        return src.weighted([(3, src.int(lo, min(hi, lo + 30))), (1, lo), (1, hi), (3, src.int(lo, hi))]) & mask
    if k == "enum":
        return src.choice(e["pairs"])[1] & mask
    if k == "fix":
        n = e["i"] + e["f"]
        lo, hi = -(1 << n), (1 << n) - 1
        v = src.weighted([(3, src.int(max(lo, -9), min(hi, 9))), (1, lo), (1, hi), (3, src.int(lo, hi))])
        return (v << (size - 1 - n)) & mask
    lo, hi = flt_range(e)
    if e.get("min") is not None and src.coin(0.7):
        fr = Fraction(lo) + (Fraction(hi) - Fraction(lo)) * src.int(0, 1 << 20) / (1 << 20)
    else:
        fr = src.weighted([(6, Fraction(src.int(-50, 50))), (9, Fraction(src.int(-10 ** 6, 10 ** 6), src.choice([3, 7, 10, 1000]))),
                           (6, Fraction(bits_f32(src.below(0x7f800000) | src.int(0, 1) << 31))),
                           (3, Fraction(src.choice([-1, 1])) * FLT_MAX), (1, None)])
    v = 1 << 31 if fr is None else nearest_f32(fr)  # negative zero
    return v if lo <= bits_f32(v) <= hi else f32_bits(lo)


def gen_legal_scalar(src, e, raw):
    """A legal text for one number."""
    v = gen_stored(src, e)
    k, size = e["k"], esize(e)
    if k == "bool":
        return src.choice(["%d", "0x%d"]) % v
    if k == "int":
        m = src.int(0, 4)
        if m == 3:
            return "0x%0*X" % (size // 4, v)
        if m == 4:
            return "0x%x" % v
        s = str(sext(v, size) if e.get("signed") else v)
        return "+" + s if m == 2 and s[0] != "-" else s
    if k == "enum":
        if raw:
            return decode(e, v, True, src.coin())
        return src.choice([decode(e, v, False, False), str(sext(v, size))])
    if k == "float" and not raw:
        return src.choice([flt_text(v), "%.9g" % bits_f32(v), "%.12e" % bits_f32(v), "%.7g" % bits_f32(v)])
    if k == "fix" and not raw:
        q = Fraction(sext(v, size) >> (size - 1 - e["i"] - e["f"]), 1 << e["f"])
        return src.choice(["%.*f" % (e["f"], q), "%.17g" % q, "%.*f" % (max(0, e["f"] - 1), q), "%.3e" % q])
    return decode(e, v, raw, src.coin())


# Whether raw texts of fixed-point parameters may set bits below their resolution, which real texts do not keep
LOWBITS = False


def gen_illegal_scalar(src, e, raw):
    """A text that is probably not legal (the model decides)."""
    t = gen_other_scalar(src, e, raw)
    if e["k"] == "fix" and raw and not LOWBITS:
        v = parse_int(t, -(1 << 40), 1 << 40)
        if v is not None and v & ((1 << (e["size"] - 1 - e["i"] - e["f"])) - 1):
            return "abc"
    return t


def gen_other_scalar(src, e, raw):
    k, size = e["k"], esize(e)
    lo, hi = (int_range(e) if k == "int" else (-(1 << (size - 1)), (1 << (size - 1)) - 1) if k != "bool" else (0, 1))
    junk = ["abc", "1x", "0x", "0xG1", "--1", "1.5", "-", "+", "1e", "0x-1", "nan", "inf", "1-", "L9", "true", "0X1",
            "99999999999999999999", "-99999999999999999999", "0x1FFFFFFFFFFFFFFFF", "0x100", "0x10000", "0x100000000",
            "1e39", "-1e40", "1e999"]
    r = src.int(0, 3)
    if r == 0:
        return src.choice(junk)
    if r == 1:
        return str(src.choice([lo - 1, hi + 1, lo - 300, hi + 300, 1 << size, -(1 << size), (1 << 31), (1 << 32) - 1]))
    if r == 2:
        return "0x%X" % src.choice([(hi + 1) & 0xffffffffff, 1 << size, (1 << size) - 1, 1 << (size - 1), 1 << 32])
    if k == "fix" and not raw:
        b = Fraction(1 << e["i"])
        stp = Fraction(1, 1 << e["f"])
        return "%.12f" % src.choice([b, b - stp / 2, b - stp / 4, -b - stp / 2, -b - stp])
    if k == "float" and not raw:
        l, h = flt_range(e)
        return "%.9g" % src.choice([l * 1.001 - 1, h * 1.001 + 1])
    return src.choice(junk)


def gen_text(src, n, raw, p_illegal=0.25):
    """A text to write to leaf n (whole)."""
    bad = src.coin(p_illegal)
    e = n.e
    if n.kind == "str":
        ln = src.weighted([(4, src.int(0, min(10, e["maxlen"]))), (2, e["maxlen"])]) if not bad else e["maxlen"] + src.int(1, 4)
        return "".join(src.choice("abXY 01_,/<&'\"|=-") for _ in range(ln))
    if n.kind == "bit":
        mx = e["max"] if e.get("max") is not None else (1 << e["size"]) - 1
        if bad:
            return src.choice([str(mx + 1), "0x%X" % (mx + 1), "abc", "1x", "-1", "", "0x", str(1 << 64), "1.5",
                               str((1 << 64) + 1), "-18446744073709551615"])
        v = src.weighted([(2, src.int(0, min(mx, 5))), (1, mx), (2, src.int(0, mx))])
        return src.choice(["%d", "0x%X", "0x%x"]) % v
    if not n.arr:
        return gen_illegal_scalar(src, e, raw) if bad else gen_legal_scalar(src, e, raw)
    cnt = src.weighted([(6, n.arr), (2, src.int(0, n.arr)), (1 if bad else 0, n.arr + 1)])
    items = [gen_legal_scalar(src, e, raw) for _ in range(cnt)]
    if bad and items and cnt <= n.arr:
        items[src.below(len(items))] = gen_illegal_scalar(src, e, raw)
    sep = src.choice([" ", ",", ", ", "\n", "\t "])
    return sep.join(items)


# ---------------------------------------------------------------- layout
def layout(root):
    """{leaf path: (first byte, integer mask of the leaf's bits within its bytes, number of bytes)} in the
    byte image of root."""
    out = {}
    pos = [0]

    def walk(n):
        if n.kind == "bits":
            size = n.e["size"] // 8
            for b in n.kids:
                out[b.path] = (pos[0], ((1 << b.e["size"]) - 1) << b.e["pos"], size)
            pos[0] += size
        elif n.is_leaf():
            size = n.size()
            out[n.path] = (pos[0], (1 << 8 * size) - 1, size)
            pos[0] += size
        else:
            for c in n.kids:
                walk(c)
    walk(root)
    return out


def allowed_mask(root, paths):
    """Integer mask (little endian over the whole image of root) of the bits of some leaves."""
    lay = layout(root)
    m = 0
    for p in paths:
        off, mask, _ = lay[p]
        m |= mask << 8 * off
    return m


# ---------------------------------------------------------------- settings of an element as XML
def xml_tag(n):
    return {"system": "SystemClass", "sub": "Subsystem", "comp": "ParameterBlock"}.get(n.kind) or TAG[n.kind]


def settings_tree(n, text_of):
    """[tag, {attributes}, text or list of children]"""
    if n.is_leaf():
        return [xml_tag(n), {"Name": n.name}, text_of(n)]
    return [xml_tag(n), {"Name": n.name}, [settings_tree(c, text_of) for c in n.kids]]


def tree_xml(t):
    tag, at, body = t
    inner = "".join(tree_xml(c) for c in body) if isinstance(body, list) else \
        escape(body, {"\r": "&#13;"})
    return "<%s%s>%s</%s>" % (tag, attrs(at), inner, tag)
