"""Damage to documents: structural and textual mutations of XML text, recorded as data so that they shrink and replay."""
import re

TAG = re.compile(r"<[^<>]*>")
ATTR = re.compile(r'([A-Za-z_:][\w:.-]*)\s*=\s*("[^"]*"|\'[^\']*\')')

VALUES = ["", "0", "1", "-1", "a", "true", "false", "2147483647", "-2147483648", "4294967295", "4294967296", "99999999999999999999", "0x10",
          "1.5", "1e400", "nan", "inf", "-0", "8", "16", "32", "64", "33", "7", " 1", "1 ", "/", "//", "/sys", "../x", "A" * 300, "&lt;", "&amp;amp;",
          "%1", "%s%n", ":", ",", "Obj:1", "Obj", "Is", "Includes", "Any", "All", "Raw", "T0", "n1", "s0", "Signed", "\u00e9", "0 0 0", "x y"]
TAGS = ["SystemClass", "Subsystem", "ComponentLibrary", "ComponentType", "ComponentTypeSet", "InstanceDefinition", "Component", "ParameterBlock",
        "IntegerParameter", "BooleanParameter", "EnumParameter", "ValuePair", "FixedPointParameter", "FloatingPointParameter", "StringParameter",
        "BitParameterBlock", "BitParameter", "LinearAdaptation", "LogarithmicAdaptation", "SubsystemInclude", "ConfigurableDomains",
        "ConfigurableDomain", "Configurations", "Configuration", "CompoundRule", "SelectionCriterionRule", "ConfigurableElements",
        "ConfigurableElement", "Settings", "ParameterFrameworkConfiguration", "SubsystemPlugins", "Location", "Plugin",
        "StructureDescriptionFileLocation", "SettingsConfiguration", "ConfigurableDomainsFileLocation", "Nothing", "xi:include"]
ATTRS = ["Name", "Type", "Path", "Mapping", "Size", "Min", "Max", "Signed", "ArrayLength", "Pos", "Extends", "Description", "Unit", "Integral",
         "Fractional", "MaxLength", "Literal", "Numerical", "SequenceAware", "SelectionCriterion", "MatchesWhen", "Value", "ValueSpace",
         "SystemClassName", "TuningAllowed", "ServerPort", "BindAddress", "Folder", "Offset", "SlopeNumerator", "SlopeDenominator",
         "LogarithmBase", "FloorValue", "Nothing", "xml:base", "xml:id", "xmlns"]
CHARS = ["<", ">", "&", "\"", "'", "\0", "\x01", "\udcff", "\udcc3", "]]>", "<!--", "-->", "<![CDATA[", "<?x y?>", "&#0;", "&#xFFFF;", "&lol;", "&#233;",
         "\u20ac", "\ufeff", " ", "\n", "a", "/", "=", "</", "/>", "<a>", "</a>"]
HEADS = ["", "<?xml version=\"1.0\"?>", "<?xml version=\"1.1\" encoding=\"UTF-8\"?>", "<?xml version=\"1.0\" encoding=\"UTF-16\"?>",
         "<?xml version=\"1.0\" encoding=\"nothing\"?>", "<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?>",
         "<!DOCTYPE a [<!ENTITY lol \"lol\"><!ENTITY b \"&lol;&lol;&lol;&lol;\">]>",
         "<!DOCTYPE a SYSTEM \"nothing.dtd\">", "\ufeff", "  "]

KINDS = [(6, "attr"), (4, "value"), (3, "noattr"), (3, "addattr"), (4, "delel"), (3, "dupel"), (3, "moveel"), (3, "tag"), (2, "deltag"), (2, "swap"),
         (3, "text"), (2, "chars"), (2, "cut"), (1, "head"), (1, "deep"), (1, "many"), (2, "wrap"), (1, "empty"), (2, "delchar")]


def gen(src, n=4):
    """A list of mutations. Positions are fractions of what they apply to, as integers below 2^16."""
    def one(i):
        k = src.weighted(KINDS)
        m = [k, src.below(1 << 16)]
        if k in ("attr", "text"):
            m.append(src.choice(VALUES))
        elif k == "addattr":
            m += [src.choice(ATTRS), src.choice(VALUES)]
        elif k in ("tag", "wrap"):
            m.append(src.choice(TAGS))
        elif k == "chars":
            m.append(src.choice(CHARS))
        elif k == "head":
            m.append(src.choice(HEADS))
        elif k in ("moveel", "swap", "value"):
            m.append(src.below(1 << 16))
        elif k == "deep":
            m += [src.choice(TAGS), src.choice([1, 10, 200, 2000])]
        elif k in ("many",):
            m.append(src.choice([2, 10, 100]))
        return m
    return src.list(1, 8, one, avg=n / 2.0)


def pick(seq, f):
    return seq[f * len(seq) >> 16] if seq else None


def elements(x):
    """Spans of the elements of the text, as well as they can be told."""
    out, stack = [], []
    for m in TAG.finditer(x):
        t = m.group()
        if t[1:2] in ("?", "!"):
            continue
        if t[1:2] == "/":
            if stack:
                out.append((stack.pop(), m.end()))
        elif t.endswith("/>"):
            out.append((m.start(), m.end()))
        else:
            stack.append(m.start())
    return sorted(out)


def apply(x, muts):
    for m in muts:
        x = step(x, m)
        if len(x) > 400000:
            break
    return x


def step(x, m):
    k, f = m[0], m[1]
    tags = [t for t in TAG.finditer(x) if t.group()[1:2] not in ("/", "?", "!")]
    attrs = [(a.start(), a.end(), a) for a in ATTR.finditer(x)]
    els = elements(x)
    if k in ("attr", "noattr", "value", "swap"):
        a = pick(attrs, f)
        if not a:
            return x
        if k == "noattr":
            return x[:a[0]] + x[a[1]:]
        if k == "swap":
            b = pick(attrs, m[2])
            v = b[2].group(2)
            return x[:a[2].start(2)] + v + x[a[2].end(2):]
        if k == "value":
            # another value of the attribute of that name
            same = [b for b in attrs if b[2].group(1) == a[2].group(1)]
            v = pick(same, m[2])[2].group(2)
            return x[:a[2].start(2)] + v + x[a[2].end(2):]
        return x[:a[2].start(2)] + '"' + m[2].replace('"', "") + '"' + x[a[2].end(2):]
    if k == "addattr":
        t = pick(tags, f)
        if not t:
            return x
        p = t.end() - (2 if t.group().endswith("/>") else 1)
        return x[:p] + ' %s="%s"' % (m[2], m[3].replace('"', "")) + x[p:]
    if k in ("delel", "dupel", "moveel", "wrap", "many"):
        e = pick(els, f)
        if not e:
            return x
        s = x[e[0]:e[1]]
        if k == "delel":
            return x[:e[0]] + x[e[1]:]
        if k == "dupel":
            return x[:e[1]] + s + x[e[1]:]
        if k == "many":
            return x[:e[1]] + (s * m[2])[:300000 // len(s) * len(s)] + x[e[1]:]
        if k == "wrap":
            return x[:e[0]] + "<%s>" % m[2] + s + "</%s>" % m[2] + x[e[1]:]
        rest = x[:e[0]] + x[e[1]:]
        t = pick([t for t in TAG.finditer(rest)], m[2])
        return rest if not t else rest[:t.end()] + s + rest[t.end():]
    if k == "tag":
        e = pick(els, f)
        if not e:
            return x
        s = x[e[0]:e[1]]
        n = re.match(r"<([\w:.-]+)", s)
        if not n:
            return x
        s = "<" + m[2] + s[n.end():]
        if s.endswith("</%s>" % n.group(1)):
            s = s[:-len(n.group(1)) - 1] + m[2] + ">"
        return x[:e[0]] + s + x[e[1]:]
    if k == "deltag":
        t = pick(list(TAG.finditer(x)), f)
        return x if not t else x[:t.start()] + x[t.end():]
    if k == "text":
        # the text of an element that holds only text
        c = pick([c for c in re.finditer(r">([^<>]*)</", x)], f)
        return x if not c else x[:c.start(1)] + m[2] + x[c.end(1):]
    if k == "chars":
        p = f * (len(x) + 1) >> 16
        return x[:p] + m[2] + x[p:]
    if k == "delchar":
        p = f * (len(x) + 1) >> 16
        return x[:p] + x[p + 1:]
    if k == "cut":
        return x[:f * (len(x) + 1) >> 16]
    if k == "head":
        return m[2] + re.sub(r"^\s*<\?xml[^>]*>", "", x)
    if k == "deep":
        p = pick([t.end() for t in TAG.finditer(x)] or [0], f)
        return x[:p] + "<%s>" % m[2] * m[3] + "</%s>" % m[2] * m[3] + x[p:]
    if k == "empty":
        e = pick(els, f)
        if not e:
            return x
        s = x[e[0]:e[1]]
        t = TAG.match(s)
        return x[:e[0]] + (t.group() if t.group().endswith("/>") else t.group()[:-1] + "/>") + x[e[1]:]
    raise AssertionError(k)


# ------------------------------------------------------------------ rewriting that keeps the meaning
COMMENTS = ["<!-- c -->", "<!---->", '<!-- <Component Name="x" Type="T0"/> -->', "<?p i?>", "\n\t ", " ", "<!-- a --><!-- b -->", "<!-- \u00e9 & < > -->"]


def noise(x, seed, p=0.15):
    """The same document written in another way: comments, blanks, order and quotes of attributes, character references, CDATA."""
    if seed is None or not isinstance(x, str) or "<!" in x:
        return x
    import random
    rnd = random.Random(seed)
    out, end = [], 0
    toks = [m for m in TAG.finditer(x)]
    for i, m in enumerate(toks):
        text = x[end:m.start()]
        t = m.group()
        prev = toks[i - 1].group() if i else ""
        leaf = i and prev[1:2] not in ("/", "?") and not prev.endswith("/>") and t[1:2] == "/"
        if not i:
            out.append(text)
        elif not leaf:
            if rnd.random() < p:
                text = rnd.choice([text, ""]) + rnd.choice(COMMENTS) + text
            out.append(text)
        else:
            if text.strip() and rnd.random() < p:
                k = rnd.randrange(4)
                if k == 0:
                    text += "<!-- 1 -->"
                elif k == 1:
                    text = "<!-- 2 -->" + text
                elif k == 2 and "&" not in text:
                    text = "<![CDATA[" + text + "]]>"
                elif text[0] not in "&\n\r\t ":
                    text = "&#%d;" % ord(text[0]) + text[1:]
            out.append(text)
        end = m.end()
        if t[1:2] not in ("/", "?") and rnd.random() < p:
            t = rewrite(t, rnd)
        out.append(t)
    out.append(x[end:])
    return "".join(out)


def rewrite(t, rnd):
    n = re.match(r"<([\w:.-]+)", t).group(1)
    at = [(a.group(1), a.group(2)) for a in ATTR.finditer(t)]
    k = rnd.randrange(4)
    if k == 0 or k == 3:
        rnd.shuffle(at)
    if k == 1:
        at = [(a, "'" + v[1:-1] + "'") if "'" not in v and v[:1] == '"' else (a, v) for a, v in at]
    if k == 2 and at:
        j = rnd.randrange(len(at))
        a, v = at[j]
        if v[1:2] not in ("&", v[0], " ", "\t", "\n", "\r", ""):
            at[j] = (a, v[0] + "&#x%x;" % ord(v[1]) + v[2:])
    body = "<" + n + "".join(rnd.choice([" ", " ", "\n  "]) + "%s=%s" % (a, v) for a, v in at)
    if not t.endswith("/>"):
        return body + ">"
    return body + rnd.choice(["/>", " />", "></%s>" % n])
