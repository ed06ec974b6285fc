"""C07: real-valued parameters store the nearest representable value."""
import struct
from fractions import Fraction
import pfstruct as ps
from pf import *


def near_text(src, e):
    """A decimal text (exact) around interesting points of a real-valued parameter."""
    if e["k"] == "fix":
        step = Fraction(1, 1 << e["f"])
        lo, hi = -Fraction(1 << e["i"]), Fraction((1 << (e["i"] + e["f"])) - 1, 1 << e["f"])
        n = 1 << (e["i"] + e["f"])
        base = src.weighted([(4, step * src.int(-min(n, 20), min(n - 1, 20))), (3, step * src.int(-n, n - 1)), (2, lo), (2, hi)])
        d = src.choice([Fraction(0), step / 2, -step / 2, step * 49 / 100, -step * 49 / 100, step * 51 / 100, step / 3,
                        -step / 3, step, -step, step * 3 / 2])
        return dectext(base + d, src)
    lo, hi = ps.flt_range(e)
    m = src.int(0, 5)
    if m == 0 and e.get("min") is not None:
        f = src.choice([Fraction(e["min"]), Fraction(e["max"]), Fraction(lo), Fraction(hi)])
        f += src.choice([0, Fraction(1, 1000), -Fraction(1, 1000), Fraction(1, 10 ** 9), -Fraction(1, 10 ** 9)])
    elif m == 1 and e.get("min") is not None:
        f = Fraction(lo) + (Fraction(hi) - Fraction(lo)) * src.int(0, 1000) / 1000
    elif m == 2:
        b = src.below(0x7f7fffff)
        a, c = Fraction(ps.bits_f32(b)), Fraction(ps.bits_f32(b + 1))
        f = a + (c - a) * src.choice([Fraction(1, 2), Fraction(1, 3), Fraction(2, 3), Fraction(499, 1000), Fraction(501, 1000)])
        f = -f if src.coin() else f
        if src.coin():
            # the text of a number closer to a tie than double precision tells
            b = src.weighted([(2, src.int(0x3f000000, 0x4b000000)), (1, src.below(0x7f7fffff))])
            a, c = Fraction(ps.bits_f32(b)), Fraction(ps.bits_f32(b + 1))
            f = (a + c) / 2 + (c - a) / src.choice([10 ** 9, 10 ** 12, 10 ** 30, -10 ** 9, -10 ** 12, -10 ** 30])
            k = src.choice([40, 60, 170])
            n = f.numerator * 10 ** k // f.denominator
            s = ("%d" % n).rjust(k + 1, "0")
            return src.choice(["", "-"]) + s[:-k] + "." + s[-k:]
        return src.choice(["%.9g", "%.12g", "%.17g"]) % float(f)
    elif m == 3:
        f = Fraction(src.int(-10 ** 7, 10 ** 7), src.choice([1, 10, 3, 7, 1000, 10 ** 6]))
    elif m == 4:
        return src.choice(["0", "-0", "1e-45", "1e-46", "-1e-50", "3.4028235e38", "3.4028236e38", "3.5e38", "-3.5e38", "1e39",
                           "1.17549435e-38", "16777217", "33554435", "0.1", "1e400", "-1e400", "1e-400", "nan", "inf", "-inf",
                           "NAN", "infinity", "0x1p3", "1.5f", "1,5", "1e", ".5", "5.", "1e+3", "+2", "", "--1", "1 2"])
    else:
        f = Fraction(src.int(-4000, 4000), 8)
    return dectext(f, src)


def dectext(f, src):
    """Exact decimal text of a dyadic fraction, or a close one."""
    m = src.int(0, 3)
    d = f.denominator
    k = 0
    while d % 2 == 0:
        d //= 2
        k += 1
    if d == 1 and k <= 40 and m != 1:
        s = "%d" % abs(f.numerator * 5 ** k)
        s = s.rjust(k + 1, "0")
        t = ("-" if f < 0 else "") + (s[:-k] + "." + s[-k:] if k else s)
    else:
        t = "%.15g" % float(f)
    if m == 2 and "e" not in t and "." in t:
        t = t + "0" * 3
    if m == 3 and "e" not in t:
        t = t + "e0"
    return t


class C07(Check):
    pid = "C07"
    technique = "property-based testing: generated formats and reals around rounding points against exact rational arithmetic"
    note = ("Accepted values are judged by a validity predicate (error at most half a step, nearest single), refused ones by exact "
            "range comparison; values within double rounding of a bound are not judged. ASan+UBSan build, sampled inputs.")
    rule = "at least one accepted real that is not exactly representable and at least one refused text"
    quick, thorough = 30000, 300000

    def gen(self, src, tier):
        o = ps.GenOpts(arrays=0.25)
        leaves = []
        for i in range(src.int(1, 3)):
            leaves.append(ps.gen_leaf(src, "p%d" % i, o, ["fix", "fix", "float"]))
        st = {"name": "sys", "subs": [{"name": "s", "type": "Virtual", "types": [], "inst": leaves}]}

        def op(i):
            e = leaves[src.below(len(leaves))]
            path = "/sys/s/" + e["n"]
            if e.get("arr"):
                path += "/%d" % src.int(0, e["arr"] - 1)
            t = near_text(src, e)
            via = src.choice(["text", "text", "double", "xml"])
            if via == "double" and e.get("arr"):
                via = "text"
            return {"path": path, "text": t, "via": via, "pre": src.choice([None, "0", "1"])}
        return {"st": st, "ops": src.list(1, 12, op, avg=7)}

    def run(self, case, ctx):
        st = case["st"]
        root = ps.instantiate(st)
        m = ps.Values(root)
        must(ctx.run(boot(ctx, st)))
        inexact = refused = 0
        for n, o in enumerate(case["ops"]):
            what = "operation %d %r" % (n, o)
            leaf, idx = m.find(o["path"])
            e = leaf.e
            t = o["text"]
            if leaf.arr and (t == "" or " " in t or "," in t):
                continue    # not one text but a list
            if o["via"] == "text":
                q = [["api", "a", "setParameter", o["path"], t]]
                fr = ps.parse_real(t)
                exact_in = fr
            elif o["via"] == "double":
                fr = ps.parse_real(t)
                if fr is None:
                    continue
                d = ps.f64_of(fr)
                if d is None:
                    continue
                q = [["cmd", "a", "setTuningMode", "off"], ["hpath", "a", o["path"], "setDouble", d],
                     ["cmd", "a", "setTuningMode", "on"]]
                fr = exact_in = Fraction(d)
            else:
                if leaf.arr:
                    continue
                tag = leaf.framework_kind()
                q = [["hpath", "a", leaf.path, "setXML", "<%s Name=%s>%s</%s>" % (tag, ps.quoteattr(leaf.name), ps.escape(t), tag)]]
                fr = exact_in = ps.parse_real(t)
            before = self.stored(ctx, leaf, idx)
            rep = ctx.run(q)
            r = rep[1] if len(rep) == 3 else rep[0]
            accepted = r[0] == "1"
            after = self.stored(ctx, leaf, idx)
            verdict = self.judge(e, exact_in, t, o["via"])
            if not accepted:
                refused += 1
                expect(verdict is not True, "%s: refused although in range: %s", what, r)
                expect(r[-1] != "", "%s: refused without an error", what)
                expect(after == before, "%s: refused but the stored value went from %s to %s", what, before, after)
                continue
            expect(verdict is not False, "%s: accepted although not a real in range; stored %s", what, after)
            # rounding
            v = int(after)
            if e["k"] == "fix":
                sh = e["size"] - 1 - e["i"] - e["f"]
                expect(v & ((1 << sh) - 1) == 0, "%s: stored %d has bits below its resolution", what, v)
                q_ = Fraction(v >> sh, 1 << e["f"])
                step = Fraction(1, 1 << e["f"])
                tol = step / 2 + abs(fr) / (1 << 50)
                expect(abs(q_ - fr) <= tol, "%s: stored %s, which is %s away (step %s)", what, q_, abs(q_ - fr), step)
                inexact += q_ != fr
            else:
                b = v & 0xffffffff
                x = Fraction(ps.bits_f32(b))
                near = ps.nearest_f32(fr, t.startswith("-"))
                expect(b == near or (x == 0 and near in (0, 1 << 31)),
                       "%s: stored 0x%08x, the nearest single is 0x%08x", what, b, near)
                inexact += x != fr
            # what it prints reads back to the same stored integer
            g = ctx.run([["cmd", "a", "getParameter", o["path"]]])[0]
            expect(g[0] == "1", "%s: %s", what, g)
            if o["pre"] is not None:
                ctx.run([["api", "a", "setParameter", o["path"], o["pre"]]])
            w = ctx.run([["api", "a", "setParameter", o["path"], g[1]]])[0]
            expect(w[0] == "1", "%s: printed as %r, which is refused: %s", what, g[1], w)
            again = self.stored(ctx, leaf, idx)
            expect(again == after, "%s: printed as %r, which stores %s instead of %s", what, g[1], again, after)
        return {"nontrivial": inexact and refused}

    def stored(self, ctx, leaf, idx):
        r = ctx.run([["api", "a", "setValueSpace", 1], ["api", "a", "setOutputRawFormat", 0],
                     ["mget", "a", leaf.path + ("" if idx is None else "/%d" % idx)],
                     ["api", "a", "setValueSpace", 0]])
        return r[2][2]

    def judge(self, e, fr, t, via):
        """True: must be accepted. False: must be refused. None: too close to tell."""
        if fr is None:
            if ps.REAL.fullmatch(t):
                return None
            return False
        if e["k"] == "fix":
            lo, hi = -Fraction(1 << e["i"]), Fraction((1 << (e["i"] + e["f"])) - 1, 1 << e["f"])
            eps = max(abs(fr), 1) / (1 << 50)
            if fr < lo - eps or fr > hi + eps:
                return False
            return True if (lo <= fr <= hi) else None
        lo, hi = map(Fraction, ps.flt_range(e))
        if abs(fr) > ps.FLT_MAX:
            return False if abs(fr) >= ps.FLT_MAX + Fraction(2) ** 103 else None
        if fr != 0 and abs(fr) < Fraction(1, 1 << 126):
            return None     # subnormal or underflowing
        n = Fraction(ps.bits_f32(ps.nearest_f32(fr)))
        if lo < n < hi and lo < fr < hi:
            return True
        if n < lo and fr < lo or n > hi and fr > hi:
            return False
        if fr in (lo, hi) and n == fr:
            return True
        return None


CHECK = C07
