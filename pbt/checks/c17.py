"""C17: each subsystem object is built from the mapping its position implies."""
import re

import pfstruct as ps
from pf import *

CTX = ["Owner", "A1", "A2", "A3"]
# key, context keys it needs, largest size; in the order in which the subsystem publishes them
KINDS = [("Obj", (), None), ("Deep", ("Owner",), None), ("Duo", ("A1", "A3"), None), ("Small", (), 4)]


# ------------------------------------------------------------------ generation
def gen_text(src):
    return src.choice(["v", "%1", "%1-%2", "%3/%1", "", "%2%2", "a%", "%9%1", "%0", "%%1", "'%1'", "n:%1", "50%:%2", "%1%2%3", "%a%3",
                       "'q'", "''", "%2 %1", "x%3", "%4", "<&\">%1", "%", "'",
                       "00", "a-long-one:%1", "some text %2/%1/%3 and more %2%9%1 %", "0x00"]) if not src.coin(0.15) else \
        "".join(src.choice(["%1", "%2", "%3", "ab", "%", ":", "0", " ", "c", "%4"]) for _ in range(src.int(1, 12))).strip()


def gen_ctx(src):
    return src.choice(["c", "card 0", "0", "0x1f", "010", "-1", "3 x", "4294967296", "99999999999999999999", "%1", "a:b", "%", "", "'z'", "''", "17", "%2"]) if src.coin(0.5) else "k%d" % src.int(0, 99)


def gen_value(src, l):
    if l.kind == "str":
        return "".join(src.choice("abc d") for _ in range(src.int(0, l.e["maxlen"]))).strip()
    if l.kind == "bit":
        return src.int(0, (1 << l.e["size"]) - 1 if l.e.get("max") is None else l.e["max"])
    return [ps.gen_stored(src, l.e) for _ in range(max(1, l.arr))]


def join(src, items):
    items = src.shuffle(items) if len(items) > 1 and src.coin(0.5) else items
    return ",".join(k if v is None else k + ":" + v for k, v in items)


def gen_map(src, seen, obj, small, leaf):
    """A mapping attribute. seen: context keys already given along the path; obj: whether to name an object."""
    m = []
    for k in CTX:
        if src.coin(0.03 if leaf and not obj else 0.25) and (k not in seen or src.coin(0.06)):
            m.append((k, None if src.coin(0.05) else gen_ctx(src)))
            seen.add(k)
    if obj:
        ok = [k for k, need, mx in KINDS if set(need) <= seen and (mx is None or small)]
        for _ in range(2 if src.coin(0.12) else 1):
            k = src.choice([x[0] for x in KINDS]) if src.coin(0.05) else src.choice(ok)
            if k not in [x[0] for x in m]:
                m.append((k, None if src.coin(0.05) else gen_text(src)))
    if m and src.coin(0.1):
        m.append((src.choice(["Zed", "obj", "A4", "OwnerX", "zz", "Object", "Ob", "Owned", "A"]), gen_text(src)))
    if m and src.coin(0.01):
        m.append((src.choice(m)[0], "dup"))
    return join(src, m) if m else None


def decorate(src, elems, seen, done, types, used):
    for e in elems:
        e.pop("map", None)
        leaf = e["k"] not in ("block", "comp")
        below = done
        mine = set(seen)
        if e["k"] == "comp":
            mine |= types[e["type"]]["keys"]
            below = below or types[e["type"]]["obj"]
        obj = not below and src.coin(0.9 if leaf else 0.3) or below and src.coin(0.15)
        kind = set(mine)
        if leaf or src.coin(0.55) or obj:
            if not (e.get("arr") and e["k"] in ("block", "comp")) or obj:
                if not leaf or obj or src.coin(0.01):
                    e["map"] = gen_map(src, kind, obj, leaf and e["k"] != "str" and not e.get("arr"), leaf)
        if e.get("map") is None:
            e.pop("map", None)
            kind = mine
            obj = False
        if e["k"] == "block":
            decorate(src, e["kids"], kind, below or obj, types, used)


def type_chain(name, types):
    while name:
        yield types[name]
        name = types[name].get("ext")


# ------------------------------------------------------------------ model
class Bad(Exception):
    pass


def parse(raw):
    d = {}
    for p in [p for p in raw.split(",") if p]:
        k, _, v = p.partition(":")
        if k in d:
            raise Bad("duplicate key %s in %r" % (k, raw))
        d[k] = v
    return d


def texts(n):
    """Mapping attributes that count for an element, nearest first."""
    out = [(n.e or {}).get("map")]
    if n.kind == "comp":
        out += [t.get("map") for t in type_chain(n.e["type"], n.types)]
    return [t for t in out if t]


def lookup(n, key):
    for t in texts(n):
        d = parse(t)
        if key in d:
            return d[key]
    return None


def show(n):
    return ", ".join(", ".join("%s:%s" % kv for kv in sorted(parse(t).items(), key=lambda x: x[0].encode())) for t in reversed(texts(n)) if parse(t))


def amend(value, ctx):
    if len(value) >= 2 and value[0] == value[-1] == "'":
        value = value[1:-1]
    out, i = "", 0
    while i < len(value):
        if value[i] == "%" and value[i + 1:i + 2] in ("1", "2", "3") and "A" + value[i + 1] in ctx:
            out += ctx["A" + value[i + 1]]
            i += 2
        else:
            out += value[i]
            i += 1
    return out


def number(text):
    """What an object reads of a context value as an integer: as the C library's strtoul with base 0 does."""
    m = re.match(r"\s*([+-]?)(0[xX][0-9a-fA-F]+|0[0-7]*|[1-9][0-9]*)", text)
    if not m:
        return 0
    v = m.group(2)
    v = int(v, 16) if v[:2].lower() == "0x" else int(v, 8) if v[0] == "0" else int(v)
    return (1 << 64) - 1 if v >= 1 << 64 else -v % (1 << 64) if m.group(1) == "-" else v


class Mapping:
    def __init__(self):
        self.objects = {}     # path: (node, key, raw, formatted, context)
        self.loose = False    # the outcome is not judged

    def walk(self, n, ctx):
        dive = True
        if texts(n):
            if n.kind == "bit":
                self.loose = True
            ctx = dict(ctx)
            for k in CTX:
                v = lookup(n, k)
                if v is not None:
                    if k in ctx:
                        if n.parent.e is n.e:
                            # an item of an array of blocks: the declaration is that of the array
                            self.loose = True
                        raise Bad(n.path)
                    ctx[k] = v
            made = False
            for key, need, mx in KINDS:
                raw = lookup(n, key)
                if raw is None:
                    continue
                if any(k not in ctx for k in need) or mx is not None and n.size() > mx:
                    raise Bad(n.path)
                self.objects[n.path] = (n, key, raw, amend(raw, ctx), ctx)
                made = True
                break
            if not made and n.kind not in ("block", "comp"):
                raise Bad(n.path)
            dive = not made
        if dive:
            for c in n.kids:
                self.walk(c, ctx)


class C17(Check):
    pid = "C17"
    technique = "property-based testing: generated structures with mapping attributes on subsystems, types, instances and parameters, against a reference model of context propagation and object creation"
    note = ("A recording plug-in publishes four context keys and four kinds of objects (two with required ancestors, one with a largest size) "
            "and reports every object made with its raw and formatted mapping and all it can learn of its ancestors. Valid starts also show the mapping of every element, look up "
            "every key through handles, and write all parameters so that each object has to hand over exactly its own bytes. Context keys on an "
            "array of blocks, which its items share, are generated but not judged.")
    rule = "a start with at least two objects of which one has a positional reference replaced or an ancestor's key, or a refused mapping"
    quick, thorough = 20000, 220000

    def gen(self, src, tier):
        o = ps.GenOpts(rec=0.85, subs=(1, 2), depth=4 if src.coin(0.3) else 3, maxleaves=14, comps=True, arrays=0.15, blockarrays=0.12)
        st = ps.gen_struct(src, o)
        for s in st["subs"]:
            types = {t["name"]: t for t in s.get("types", [])}
            for t in s.get("types", []):
                base = types[t["ext"]] if t.get("ext") else {"keys": set(), "obj": False}
                seen = set(base["keys"])
                obj = src.coin(0.15)
                m = gen_map(src, seen, obj, False, False) if obj or src.coin(0.4) else None
                if m:
                    t["map"] = m
                else:
                    seen, obj = set(base["keys"]), False
                t["keys"], t["obj"] = seen, obj or base["obj"]
                decorate(src, t["kids"], seen, t["obj"], types, None)
            seen = set()
            if src.coin(0.4):
                m = gen_map(src, seen, src.coin(0.1), False, False)
                if m:
                    s["map"] = m
            decorate(src, s["inst"], seen, False, types, None)
            for t in s.get("types", []):
                del t["keys"], t["obj"]
        return {"st": st, "vals": {"shift": src.int(0, 2), "set": [gen_value(src, l) for l in ps.instantiate(st).leaves()]}}

    def run(self, case, ctx):
        st = case["st"]
        root = ps.instantiate(st)
        want = Mapping()
        tags = set()
        bad = None
        try:
            for s, n in zip(st["subs"], root.kids):
                for t in [s] + s.get("types", []):
                    if t.get("map"):
                        parse(t["map"])
                for t in s.get("types", []):
                    check_parse(t["kids"])
                check_parse(s["inst"])
                types = {t["name"]: t for t in s.get("types", [])}
                for x in n.all():
                    x.types = types
                if s["type"] == "REC":
                    first = {k: lookup(n, k) for k in CTX if lookup(n, k) is not None}
                    for c in n.kids:
                        want.walk(c, first)
        except Bad as ex:
            bad = str(ex)
        r = ctx.run(boot(ctx, st, start=False) + [["start", "a"], ["rtake"]])
        ok, err = r[-2][0] == "1", r[-2][1] if len(r[-2]) > 1 else ""
        if want.loose:
            return {"nontrivial": False, "tags": ["array-item"]}
        if bad:
            expect(not ok, "the start succeeded in spite of the mapping of %s", bad)
            expect(err, "the start failed without an error message (mapping of %s)", bad)
            if bad.startswith("/"):
                expect(bad in err, "the mapping of %s is wrong, but the error is %r", bad, err)
            return {"nontrivial": True, "tags": ["refused" if bad.startswith("/") else "duplicate"]}
        expect(ok, "the start failed: %s", err)
        ev = [r[-1][1 + i:7 + i] for i in range(0, len(r[-1]) - 1, 6)]
        got = {}
        for what, path, a, b, c, _ in ev:
            if what == "C":
                expect(path not in got, "two objects were created for %s", path)
                got[path] = (a, b, c)
        expect(set(got) == set(want.objects), "objects were created for %s, expected %s", sorted(got), sorted(want.objects))
        good = False
        for path, (n, key, raw, text, known) in want.objects.items():
            a, b, c = got[path]
            expect(a == raw, "%s: the object was created with mapping %r, expected %r", path, a, raw)
            expect(b == text, "%s: mapping %r was formatted as %r, expected %r", path, raw, b, text)
            sees = "".join(2 * (("=" + known[k] if k in known else "-") + "\x1f") + "%d\x1f" % number(known.get(k, "")) for k in CTX)
            expect(c == sees, "%s: the object sees the context %r, expected %r", path, c, sees)
            tags.add(key)
            if text != raw:
                tags.add("amended")
                good = True
            if "Owner" in known:
                tags.add("owner")
        self.texts(ctx, root, want, case["vals"])
        self.bytes(ctx, root, want, case["vals"])
        return {"nontrivial": len(want.objects) >= 2 and good, "tags": tags}

    def texts(self, ctx, root, want, vals):
        nodes = [n for n in root.all() if n is not root]
        r = ctx.run([["cmd", "a", "showMapping", n.path] for n in nodes])
        for n, (ok, text) in zip(nodes, [x[:2] for x in r]):
            line = [show(a) for a in [n] + n.ancestors() if a is not root and a.kind != "bit" or a is n]
            line = ", ".join(x for x in reversed(line) if x)
            if n.path in want.objects:
                line += ", %s:%s" % (want.objects[n.path][1], want.objects[n.path][3])
            expect(ok == "1", "showMapping %s failed: %s", n.path, text)
            expect(trim(text) == trim(line), "showMapping %s shows %r, expected %r", n.path, text, line)
        q, w = [], []
        for i, n in enumerate(nodes):
            for j, k in enumerate(CTX + [x[0] for x in KINDS] + ["Zed"]):
                if (i + j + vals["shift"]) % 3 == 0:
                    q.append(["hpath", "a", n.path, "mapping", k])
                    w.append(next((v for v in (lookup(a, k) for a in [n] + n.ancestors()[:-1]) if v is not None), None))
        for a, b, c in zip(q, ctx.run(q), w):
            expect((b[0] == "1") == (c is not None), "handle: key %s of %s is %s, expected %r", a[4], a[2], b, c)
            if c is not None:
                expect(b[1] == c, "handle: key %s of %s is %r, expected %r", a[4], a[2], b[1], c)

    def bytes(self, ctx, root, want, vals):
        """Writing everything hands each object exactly its own bytes."""
        v = ps.Values(root)
        q = [["cmd", "a", "setTuningMode", "on"], ["api", "a", "setAutoSync", "0"], ["api", "a", "setValueSpace", "1"]]
        for l, x in zip(v.leaves, vals["set"]):
            v.v[l.path] = x
            q.append(["api", "a", "setParameter", l.path, v.text(l.path, True, False)])
        must(ctx.run(q), "writing everything")
        r = ctx.run([["rtake"], ["api", "a", "setAutoSync", "1"]])
        expect(r[1][0] == "1", "synchronizing everything failed: %s", r[1])
        r = ctx.run([["rtake"]], raw=True)[0][1:]
        seen = {}
        for i in range(0, len(r), 6):
            if r[i] == b"W":
                seen[r[i + 1].decode()] = r[i + 2]
        expect(set(seen) == set(want.objects), "a full synchronization wrote %s, expected %s", sorted(seen), sorted(want.objects))
        for path, (n, *_) in want.objects.items():
            data = seen[path]
            expect(len(data) == n.size(), "%s: the object covers %d bytes, expected %d", path, len(data), n.size())
            for l, (pos, mask, size) in ps.layout(n).items():
                part = data[pos:pos + size]
                if isinstance(v.v[l], str):
                    same = part.split(b"\0")[0] == v.v[l].encode("utf-8", "surrogateescape") and b"\0" in part
                elif v.nodes[l].kind == "bit":
                    e = v.nodes[l].e
                    same = int.from_bytes(part, "little") & mask == v.v[l] << e["pos"]
                else:
                    same = part == v.bytes(v.nodes[l])
                expect(same, "%s: the object of %s was handed %s", l, path, part.hex())


def check_parse(elems):
    for e in elems:
        if e.get("map"):
            parse(e["map"])
        check_parse(e.get("kids", []))


CHECK = C17
