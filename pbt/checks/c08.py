"""C08: typed access agrees with textual access."""
import math
from fractions import Fraction
import pfstruct as ps
from pf import *

FS = ["Boolean", "Integer", "SignedInteger", "Double", "String"]
U32, I31 = (1 << 32) - 1, 1 << 31


def supports(f, l):
    k = l.kind
    if f == "String":
        return True
    if f == "Boolean":
        return k == "bool" or k == "bit" and l.e["size"] == 1
    if f == "Integer":
        return k in ("bool", "int", "bit")
    if f == "SignedInteger":
        return k in ("int", "enum")
    return k in ("fix", "float") or k == "int" and bool(l.e.get("adapt"))


def adapt_raw(a, d):
    """Raw integer (before range checking) for a user value, None when it is too big to tell."""
    try:
        if a.get("log"):
            base = float(a.get("base", math.e))
            if d < 0 or d != d:
                return None
            d = -math.inf if d == 0 else math.log(d) / math.log(base)
        x = d * float(a.get("num", 1)) / float(a.get("den", 1))
    except (OverflowError, ZeroDivisionError):
        return None
    if x != x:
        return None
    big = 1 << 62
    r = -big if x <= -big else big if x >= big else int(x) + a.get("off", 0)
    if a.get("log"):
        r = max(r, int(float(a.get("floor", "-inf")))) if a.get("floor") is not None else r
    return r


def adapt_user(a, raw):
    x = float(raw - a.get("off", 0)) * float(a.get("den", 1)) / float(a.get("num", 1))
    if a.get("log"):
        return math.exp(x * math.log(float(a.get("base", math.e))))
    return x


class C08(Check):
    pid = "C08"
    technique = "property-based testing: generated parameters, adaptations and typed calls, differential against the text interface and a reference codec"
    note = ("Integers are judged exactly through the accessor of their signedness; through the other one, an accepted write must be shown "
            "as given. Real values are judged to half a step (one raw unit through an adaptation); values within rounding of a bound and "
            "negative inputs of logarithmic adaptations are not judged. ASan+UBSan build.")
    rule = "at least one accepted typed write that changed a value, one refused, and one typed read compared with text"
    quick, thorough = 40000, 400000

    def gen(self, src, tier):
        o = ps.GenOpts(maxleaves=8, width=(2, 5), depth=2, arrays=0.3, rec=0.3, subs=(1, 1), adapt=0.5,
                       kinds=["int", "int", "bool", "enum", "fix", "float", "str", "bits"])
        st = ps.gen_struct(src, o)
        root = ps.instantiate(st)
        leaves = root.leaves()
        dom = [l.path for l in leaves if src.coin(0.12)]
        nodes = root.all()

        def ival(l):
            e = l.e
            c = [0, 1, 2, 255, 256, 65535, U32, I31 - 1, -1, -I31, src.int(-300, 300), src.int(-I31, I31 - 1), src.int(0, U32)]
            if l.kind == "int":
                lo, hi = ps.int_range(e)
                c += [lo, hi, lo - 1, hi + 1, src.int(lo, hi), src.int(lo, hi)] * 2
            if l.kind == "enum":
                c += [n for _, n in e["pairs"]] * 4
            if l.kind == "bit":
                mx = e["max"] if e.get("max") is not None else (1 << e["size"]) - 1
                c += [mx, mx + 1, src.int(0, mx), src.int(0, mx)] * 2
            if l.kind == "bool":
                c += [0, 1] * 6
            return src.choice(c)

        def dval(l):
            e = l.e
            if l.kind == "fix":
                v = ps.gen_stored(src, e)
                q = Fraction(ps.sext(v, e["size"]) >> (e["size"] - 1 - e["i"] - e["f"]), 1 << e["f"])
                s = Fraction(1, 1 << e["f"])
                return float(q + src.choice([0, 0, s / 3, -s / 3, s / 4, s * 2, -s * 2]))
            if l.kind == "float":
                return ps.bits_f32(ps.gen_stored(src, e)) * src.choice([1.0, 1.0, 1.0000001, 1.1])
            if l.kind == "int" and e.get("adapt") and src.coin(0.8):
                try:
                    d = adapt_user(e["adapt"], src.choice([src.int(*ps.int_range(e)), src.int(*ps.int_range(e)), ps.int_range(e)[0],
                                                           ps.int_range(e)[1], ps.int_range(e)[1] + 3]))
                    return d * src.choice([1.0, 1.0, 1.0000001])
                except (OverflowError, ZeroDivisionError):
                    return 1.0
            return src.choice([0.0, 1.0, -1.0, 0.5, 1e10, -1e10, 1e300, -1e300, float(src.int(-300, 300)), src.int(-4000, 4000) / 16.0])

        def value(f, l):
            if f == "Boolean":
                return src.int(0, 1)
            if f == "Integer":
                return ival(l) & U32
            if f == "SignedInteger":
                v = ival(l)
                return v if -I31 <= v < I31 else ps.sext(v, 32)
            if f == "Double":
                return dval(l)
            if l.kind in ps.INTLIKE:
                return ps.gen_legal_scalar(src, l.e, False) if src.coin(0.7) else ps.gen_illegal_scalar(src, l.e, False)
            return ps.gen_text(src, l, False)

        def op(i):
            k = src.weighted([(8, "set"), (4, "get"), (2, "text"), (1, "tuning"), (1, "notparam"), (1, "info")])
            l = src.choice(leaves)
            if k == "notparam":
                l = src.choice(nodes)
                return {"op": k, "path": l.path, "f": src.choice(FS), "arr": src.coin(), "set": src.coin(), "vals": ["1"]}
            if k == "tuning":
                return {"op": k, "on": src.coin()}
            if k == "info":
                return {"op": k, "path": l.path}
            if k == "text":
                return {"op": k, "path": l.path, "text": ps.gen_text(src, l, False, 0)}
            sup = [f for f in FS if supports(f, l)]
            f = src.choice(sup) if src.coin(0.85) else src.choice(FS)
            isarr = l.kind in ps.INTLIKE and bool(l.arr)
            arr = isarr if src.coin(0.93) else not isarr
            d = {"op": k, "path": l.path, "f": f, "arr": arr, "via": src.choice(["e", "p", "once"])}
            if k == "set":
                n = 1
                if arr:
                    n = l.arr if isarr else src.int(0, 2)
                    if src.coin(0.08):
                        n = src.int(0, 5)
                d["vals"] = [value(f, l) for _ in range(n)]
            return d
        return {"st": st, "dom": dom, "ops": [{"op": "text", "path": l.path, "text": ps.gen_text(src, l, False, 0)}
                                                for l in src.sample(leaves, src.int(0, 4))] + [{"op": "tuning", "on": src.coin(0.1)}] + src.list(2, 20, op, avg=12)}

    def run(self, case, ctx):
        st = case["st"]
        root = ps.instantiate(st)
        m = ps.Values(root)
        must(ctx.run(boot(ctx, st)))
        rogue = {l.path: l.path not in case["dom"] for l in m.leaves}
        if case["dom"]:
            must(ctx.run([["cmd", "a", "createDomain", "D"]] + [["cmd", "a", "addElement", "D", p] for p in case["dom"]]))
        q = []
        for l in m.leaves:
            q += [["hnew", "a", "e" + l.path, l.path, "e"], ["hnew", "a", "p" + l.path, l.path, "p"]]
        must(ctx.run(q), "creating handles")
        tuning = True
        changed = refused = reads = 0
        tags = set()

        def call(o, name, args=()):
            if o.get("via", "once") == "once":
                return ["hpath", "a", o["path"], name] + list(args)
            return ["h", "a", o["via"] + o["path"], name] + list(args)

        for n, o in enumerate(case["ops"]):
            what = "operation %d %r (tuning mode %s)" % (n, o, "on" if tuning else "off")
            k = o["op"]
            node = m.nodes[o["path"]] if "path" in o else None
            if k == "tuning":
                r = ctx.run([["cmd", "a", "setTuningMode", "on" if o["on"] else "off"]])[0]
                expect((r[0] == "1") == (tuning != o["on"]), "%s: %s", what, r)
                tuning = o["on"]
                check_all(ctx, m, False, False, what=what)
                continue
            if k == "text":
                if not tuning:
                    continue
                if m.set(o["path"], o["text"], False):
                    must(ctx.run([["api", "a", "setParameter", o["path"], o["text"]]]), what)
                continue
            if k == "info":
                r = ctx.run([["hpath", "a", o["path"], "info"]])[0]
                isarr = node.kind in ps.INTLIKE and node.arr
                want = [node.name, node.path, node.framework_kind(), str(node.size()), "1", "1" if rogue[node.path] else "0",
                        "1" if isarr else "0", str(node.arr if isarr else 0), node.desc]
                expect(r[1:] == want, "%s: %s, expected %s", what, r[1:], want)
                continue
            if k == "notparam":
                if node.is_leaf():
                    r = ctx.run([["hnew", "a", "tmp", o["path"], "p"]])[0]
                    expect(r[0] == "1", "%s: %s", what, r)
                    continue
                r = ctx.run([["hnew", "a", "tmp", o["path"], "p"],
                             ["hpath", "a", o["path"], ("set" if o["set"] else "get") + o["f"] + ("Array" if o["arr"] else "")] +
                             (o["vals"] if o["set"] else [])])
                expect(r[0][0] == "0" and r[0][1] != "", "%s: a parameter handle is given: %s", what, r[0])
                expect(r[1][0] == "0", "%s: accepted on an element that is no parameter: %s", what, r[1])
                continue
            isarr = bool(node.kind in ps.INTLIKE and node.arr)
            f = o["f"]
            if k == "get":
                r = ctx.run([call(o, "get" + f + ("Array" if o["arr"] else ""))])[0]
                ok = supports(f, node) and o["arr"] == isarr
                expect((r[0] == "1") == ok, "%s: %s", what, r)
                if not ok:
                    expect(r[-1] != "" if not o["arr"] else r[1] != "", "%s: refused without an error", what)
                    refused += 1
                    continue
                got = r[2:] if isarr else [r[1]]
                self.compare_read(m, node, f, got, what)
                reads += 1
                tags.add("get" + f)
                continue
            # set
            vals = o["vals"]
            r = ctx.run([call(o, "set" + f + ("Array" if o["arr"] else ""), vals)])[0]
            accepted = r[0] == "1"
            valid = o["arr"] == isarr and rogue[node.path] and (not isarr or len(vals) == node.arr)
            before = m.copy()
            if not valid:
                expect(not accepted, "%s: accepted on a %s of %s that belongs to %s domain", what, "parameter", node.arr,
                       "no" if rogue[node.path] else "a")
                expect(r[2] != "", "%s: refused without an error", what)
                refused += 1
                check_all(ctx, m, False, False, what=what + " (refused)")
                continue
            if tuning:
                expect(accepted, "%s: refused during tuning: %s", what, r)
                check_all(ctx, m, False, False, what=what + " (during tuning)")
                continue
            verdict = self.judge(m, node, f, vals)
            if verdict is not None:
                expect(accepted == verdict, "%s: %s", what, r)
            if not accepted:
                expect(r[2] != "", "%s: refused without an error", what)
                refused += 1
                check_all(ctx, m, False, False, what=what + " (refused)")
                continue
            tags.add("set" + f)
            self.adopt(ctx, m, node, what)
            self.check_stored(m, node, f, vals, what)
            check_all(ctx, m, False, False, what=what + " (accepted)")
            changed += m.v[node.path] != before.v[node.path]
        return {"nontrivial": changed and refused and reads, "tags": tags}

    def adopt(self, ctx, m, node, what):
        if node.kind == "bit":
            m.v[node.path] = int(ctx.run([["mget", "a", node.path]])[0][2])
        else:
            m.set_bytes(node, ctx.run([["hmbytes", "a", node.path]], raw=True)[0][1])

    def judge(self, m, node, f, vals):
        """True: to be accepted, False: to be refused, None: not judged."""
        if not supports(f, node):
            return False
        out = [self.judge1(m, node, f, v) for v in vals]
        if False in out:
            return False
        return None if None in out else True

    def judge1(self, m, node, f, v):
        e, k = node.e, node.kind
        if f == "String":
            if k in ("str", "bit"):
                return m.encode_all(node, v, False) is not None
            return ps.encode(e, v, False) is not None
        if f == "Boolean":
            return True if k == "bool" else v <= (1 if e.get("max") is None else e["max"])
        if k == "bool":
            return v <= 1
        if k == "bit":
            return v <= (e["max"] if e.get("max") is not None else (1 << e["size"]) - 1)
        if k == "enum":
            return v in [n for _, n in e["pairs"]]
        if f in ("Integer", "SignedInteger"):
            lo, hi = ps.int_range(e)
            if bool(e.get("signed")) == (f == "SignedInteger"):
                return lo <= v <= hi
            return None
        if k == "int":
            r = adapt_raw(e["adapt"], v)
            if r is None:
                return None
            lo, hi = ps.int_range(e)
            if lo <= r - 1 and r + 1 <= hi:
                return True
            if r + 1 < lo or r - 1 > hi:
                return False
            return None
        if v != v or abs(v) == math.inf:
            return False
        fr = Fraction(v)
        if k == "fix":
            lo, hi = -Fraction(1 << e["i"]), Fraction((1 << (e["i"] + e["f"])) - 1, 1 << e["f"])
            return lo <= fr <= hi
        lo, hi = map(Fraction, ps.flt_range(e))
        if fr != 0 and abs(fr) < Fraction(1, 1 << 126):
            return None
        nb = ps.nearest_f32(fr)
        if nb is None:
            return False
        nr = Fraction(ps.bits_f32(nb))
        if lo < nr < hi and lo < fr < hi or nr == fr and lo <= fr <= hi:
            return True
        if nr < lo and fr < lo or nr > hi and fr > hi:
            return False
        return None

    def check_stored(self, m, node, f, vals, what):
        st = m.v[node.path]
        st = st if isinstance(st, list) else [st]
        e, k = node.e, node.kind
        for v, s in zip(vals, st):
            if f == "String":
                want = m.encode_all(node, v, False) if k in ("str", "bit") else ps.encode(e, v, False)
                ok = s == want
            elif k in ("bool", "bit"):
                ok = s == v
            elif k == "enum":
                ok = ps.sext(s, e["size"]) == v
            elif k == "int" and f != "Double":
                x = ps.sext(s, e["size"]) if e.get("signed") else s
                # the accessor of the other signedness may stand for the same 32 bits
                ok = x == v or bool(e.get("signed")) != (f == "SignedInteger") and (x - v) % (1 << 32) == 0
            elif k == "int":
                x = ps.sext(s, e["size"]) if e.get("signed") else s
                lo, hi = ps.int_range(e)
                r = adapt_raw(e["adapt"], v)
                ok = lo <= x <= hi and (r is None or abs(x - r) <= 1)
            elif k == "fix":
                q = Fraction(ps.sext(s, e["size"]) >> (e["size"] - 1 - e["i"] - e["f"]), 1 << e["f"])
                ok = abs(q - Fraction(v)) <= Fraction(1, 2 << e["f"]) + abs(Fraction(v)) / (1 << 50)
            else:
                near = ps.nearest_f32(Fraction(v), math.copysign(1, v) < 0)
                ok = s == near or near in (0, 1 << 31) and s in (0, 1 << 31)
            expect(ok, "%s: %r given, %r stored", what, v, s)

    def compare_read(self, m, node, f, got, what):
        st = m.v[node.path]
        st = st if isinstance(st, list) else [st]
        e, k = node.e, node.kind
        expect(len(got) == len(st), "%s: %d values read", what, len(got))
        for g, s in zip(got, st):
            if f == "String":
                want = m.text_of(node, s) if k in ("str", "bit") else ps.decode(e, s, False, False)
                ok = g == want
            elif f == "Boolean":
                want = ok = g == ("1" if s else "0")
            elif f == "Double":
                d = float.fromhex(g) if "x" in g.lower() else float(g)
                if k == "fix":
                    want = float(Fraction(ps.sext(s, e["size"]) >> (e["size"] - 1 - e["i"] - e["f"]), 1 << e["f"]))
                    ok = d == want
                elif k == "float":
                    want = ps.bits_f32(s)
                    ok = d == want
                else:
                    try:
                        want = adapt_user(e["adapt"], ps.sext(s, e["size"]) if e.get("signed") else s)
                    except OverflowError:
                        want = math.inf
                    ok = d == want or abs(d - want) <= 1e-9 * max(abs(want), 1e-300)
            else:
                want = ps.sext(s, e["size"]) if k == "enum" or k == "int" and e.get("signed") else s
                if k == "int" and bool(e.get("signed")) != (f == "SignedInteger"):
                    if want < 0 or s >= 1 << (e["size"] - 1):
                        continue
                if k == "bit" and s > U32:
                    continue
                ok = g == str(want)
            expect(ok, "%s: reads %r, expected %r", what, g, want)


CHECK = C08
