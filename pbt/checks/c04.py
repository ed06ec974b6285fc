"""C04: selection criteria hold, name and report their states faithfully."""
import xml.etree.ElementTree as ET
from pf import *

ST = {"name": "sys", "subs": [{"name": "s", "type": "Virtual", "types": [], "inst": [{"k": "bool", "n": "p"}]}]}
I32 = (-(1 << 31), (1 << 31) - 1)


def s32(v):
    return v - (1 << 32) if v >= 1 << 31 else v


class Type:
    def __init__(self, incl):
        self.incl = incl
        self.p = {"none": 0} if incl else {}

    def add(self, num, name):
        if self.incl and bin(num & 0xffffffff).count("1") != 1:
            return False
        if name in self.p or num in self.p.values():
            return False
        self.p[name] = num
        return True

    def num(self, name):
        if not self.incl:
            return self.p.get(name)
        v = 0
        for x in name.split("|"):
            if x == "":
                continue
            if x not in self.p:
                return None
            v |= self.p[x]
        return v

    def lit(self, num):
        for k, v in self.p.items():
            if v == num:
                return k
        return None

    def fmt(self, state):
        if not self.incl:
            return self.lit(state) or "<none>"
        out = [self.lit(s32(1 << b)) for b in range(32) if (state & 0xffffffff) >> b & 1]
        return "|".join(x for x in out if x) or "<none>"


class C04(Check):
    pid = "C04"
    technique = "property-based testing: generated criterion types, states and call histories against a reference bijection model"
    note = ("Every reply (accept/refuse, names, numbers, listings in three formats) is compared with an exact model. Assumes empty value names are not used for inclusive types; empty names give ambiguous texts.")
    rule = "at least one value pair accepted, one refused, and one criterion state reported"
    quick, thorough = 60000, 600000

    def gen(self, src, tier):
        names = ["A", "B", "C", "D e", "none", "E|F", "\u00e9<&", "a", "m1"]

        def num(i=0):
            return src.weighted([(5, 1 << src.int(0, 5)), (3, src.int(-2, 6)), (1, 1 << src.int(0, 30)), (1, I32[0]), (1, I32[1]),
                                 (1, src.int(*I32))])

        def comb():
            return "|".join(src.choice(names[:4] + ["zz"]) for _ in range(src.int(1, 3)))

        def op(i):
            t = "T%d" % src.int(0, 1)
            k = src.weighted([(6, "add"), (2, "num"), (2, "lit"), (2, "fmt"), (2, "crit"), (4, "set"), (2, "get"), (2, "list"),
                              (1, "start")])
            if k == "add":
                return {"op": k, "t": t, "num": num(), "name": src.choice(names)}
            if k == "num":
                return {"op": k, "t": t, "name": src.choice([comb(), src.choice(names)])}
            if k in ("lit", "fmt"):
                return {"op": k, "t": t, "num": num()}
            c = src.choice(["c1", "c2", "c 3"])
            if k == "crit":
                return {"op": k, "c": c, "t": t}
            if k == "set":
                return {"op": k, "c": c, "num": num() | (num() if src.coin(0.4) else 0)}
            if k == "list":
                return {"op": k, "f": src.choice(["", "CSV", "XML", "xml", "csv", "Csv", "bad"])}
            return {"op": k, "c": c}
        ops = src.list(2, 24, op, avg=14)
        if src.coin(0.1):
            # a type of many values
            ops[:0] = [{"op": "add", "t": "T%d" % src.int(0, 1), "num": 1 << (i % 32) if i % 32 != 31 else I32[0], "name": "m%d" % i}
                       for i in range(src.int(8, 31))]
        return {"incl": [src.coin(), not src.coin()], "ops": ops}

    def run(self, case, ctx):
        types = {"T%d" % i: Type(x) for i, x in enumerate(case["incl"])}
        crit = {}
        q = boot(ctx, ST, start=False) + [["ctype", "a", t, 1 if x.incl else 0] for t, x in types.items()]
        must(ctx.run(q))
        started = False
        acc = ref = rep = 0
        ops = list(case["ops"]) + [{"op": "list", "f": f} for f in ("", "CSV", "XML")] + \
            [{"op": "get", "c": c} for c in ("c1", "c2", "c 3")]
        for n, o in enumerate(ops):
            k = o["op"]
            what = "operation %d %r" % (n, o)
            T = types.get(o.get("t"))
            if k == "add":
                r = ctx.run([["cadd", "a", o["t"], o["num"], o["name"]]])[0]
                ok = T.add(o["num"], o["name"])
                acc += ok
                ref += not ok
                expect((r[0] == "1") == ok, "%s: %s", what, r)
                expect(ok or r[1] != "", "%s: refused without an error", what)
            elif k == "num":
                r = ctx.run([["cnum", "a", o["t"], o["name"]]])[0]
                v = T.num(o["name"])
                expect(r == (["0", ""] if v is None else ["1", str(v)]), "%s: gives %s, expected %s", what, r, v)
            elif k == "lit":
                r = ctx.run([["clit", "a", o["t"], o["num"]]])[0]
                v = T.lit(o["num"])
                expect(r == (["0", ""] if v is None else ["1", v]), "%s: gives %s, expected %s", what, r, v)
            elif k == "fmt":
                r = ctx.run([["cfmt", "a", o["t"], o["num"]]])[0]
                expect(r == ["1", T.fmt(o["num"]), "1" if T.incl else "0"], "%s: gives %s, expected %r", what, r, T.fmt(o["num"]))
                f = T.fmt(o["num"])
                if T.incl and f != "<none>" and not any("|" in x or x == "" for x in T.p):
                    known = 0
                    for v in T.p.values():
                        known |= v & 0xffffffff
                    r = ctx.run([["cnum", "a", o["t"], f]])[0]
                    expect(r == ["1", str(s32(o["num"] & 0xffffffff & known))], "%s: its text %r converts to %s", what, f, r)
            elif k == "crit":
                if o["c"] in crit:
                    # the name is taken: the existing one must be what is found
                    continue
                if started:
                    continue
                r = ctx.run([["crit", "a", o["c"], o["t"]]])[0]
                expect(r == ["1", o["c"]], "%s: %s", what, r)
                crit[o["c"]] = [T, 0]
            elif k == "set":
                r = ctx.run([["cset", "a", o["c"], o["num"]]])[0]
                expect((r[0] == "1") == (o["c"] in crit), "%s: %s", what, r)
                if o["c"] in crit:
                    crit[o["c"]][1] = o["num"]
            elif k == "get":
                r = ctx.run([["cget", "a", o["c"]]])[0]
                if o["c"] in crit:
                    t, v = crit[o["c"]]
                    rep += 1
                    want = ["1", str(v), o["c"], t.fmt(v), "1" if t.incl else "0"]
                    expect(r == want, "%s: %s, expected %s", what, r, want)
                else:
                    expect(r[0] == "0", "%s: found although never created", what)
            elif k == "start":
                if not started:
                    must(ctx.run([["start", "a"]]), what)
                    started = True
            elif k == "list":
                if not started:
                    continue
                r = ctx.run([["cmd", "a", "listCriteria"] + ([o["f"]] if o["f"] else [])])[0]
                if o["f"] == "bad":
                    expect(r[0] == "0", "%s: %s", what, r)
                    continue
                expect(r[0] == "1", "%s: %s", what, r)
                self.check_list(o["f"].upper(), r[1], crit, what)
                rep += bool(crit)
        return {"nontrivial": acc and ref and rep}

    def check_list(self, f, text, crit, what):
        if f == "XML":
            if not ET:
                return
            root = ET.fromstring(text.encode("utf-8", "surrogateescape"))
            got = [(e.get("Name"), e.get("Value"), e.get("Kind"),
                    {(v.get("Literal"), v.get("Numerical")) for v in e.findall("ValuePair")})
                   for e in root.findall("SelectionCriterion")]
            want = [(c, t.fmt(v), "Inclusive" if t.incl else "Exclusive", {(a, str(b)) for a, b in t.p.items()})
                    for c, (t, v) in crit.items()]
        elif f == "CSV":
            got = [x for x in text.split("\n") if x]
            want = ["Criterion name: %s, type kind: %s, current state: %s, states: {%s}" % (
                c, "inclusive" if t.incl else "exclusive", t.fmt(v), ", ".join(sorted(t.p, key=lambda s: s.encode())))
                for c, (t, v) in crit.items()]
        else:
            got = text.strip("\n")
            want = "\n".join("\n%s:\n%s\nPossible states (%s): {%s}\nCurrent state = %s" % (
                c, "=" * (len(c) + 1), "Inclusive" if t.incl else "Exclusive",
                ", ".join(sorted(t.p, key=lambda s: s.encode())), t.fmt(v)) for c, (t, v) in crit.items()).strip("\n")
        expect(got == want, "%s: listing %r, expected %r", what, got, want)


CHECK = C04
