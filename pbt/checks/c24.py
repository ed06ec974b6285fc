"""C24: text utilities split and convert numbers exactly."""
import re
from fractions import Fraction
import pfstruct as ps
from pf import *

INTS = {"i8": (-128, 127), "u8": (0, 255), "i16": (-32768, 32767), "u16": (0, 65535),
        "i32": (-(1 << 31), (1 << 31) - 1), "u32": (0, (1 << 32) - 1), "i64": (-(1 << 63), (1 << 63) - 1),
        "u64": (0, (1 << 64) - 1), "l": (-(1 << 63), (1 << 63) - 1), "ul": (0, (1 << 64) - 1)}
DEFAULT = " \n\r\t\v\f"


def pieces(text, delims, merge):
    out, cur = [], ""
    for c in text:
        if c in delims:
            out.append(cur)
            cur = ""
        else:
            cur += c
    out.append(cur)
    if merge:
        return [x for x in out if x]
    return out if text else []


def number(t, kind):
    """Expected text of the converted value, or None."""
    if kind == "bool":
        return {"0": "0", "FALSE": "0", "false": "0", "1": "1", "TRUE": "1", "true": "1"}.get(t)
    if kind in INTS:
        v = ps.parse_int(t, *INTS[kind])
        return None if v is None else str(v)
    fr = ps.parse_real(t)
    if fr is None:
        return None
    neg = t.startswith("-")
    if kind == "f":
        b = ps.nearest_f32(fr, neg)
        return None if b is None else ps.bits_f32(b)
    v = ps.f64_of(fr, neg)
    return None if v is None or abs(v) == float("inf") else v


class C24(Check):
    pid = "C24"
    technique = "property-based testing: generated texts against a reference splitter and number parser, ASan+UBSan build"
    note = ("Every utility is called directly on generated texts and compared with exact Python arithmetic.")
    rule = "the case holds a split into at least two pieces and at least one successful and one refused conversion"
    quick, thorough = 300000, 3000000

    def gen(self, src, tier):
        alpha = src.choice(["ab,;| ", "a \t\n\r\v\f,", "x{}=\"'", "\u00e9a ,\0", "ab"])

        def text(n):
            return "".join(src.choice(alpha) for _ in range(src.int(0, n)))

        def num():
            k = src.choice(list(INTS) + ["f", "d", "bool"])
            m = src.int(0, 9)
            if k in INTS:
                lo, hi = INTS[k]
                v = src.weighted([(2, src.choice([lo, hi, lo - 1, hi + 1])), (2, src.int(lo, hi)), (2, src.int(-3, 20)),
                                  (1, src.int(hi, hi * 3 + 3)), (1, src.int(lo * 3 - 3, 0))])
                if m <= 3:
                    t = str(v)
                elif m <= 6:
                    t = ("0x%x" if src.coin() else "0x%X") % abs(v)
                elif m == 7:
                    t = src.choice(["+", "00", "-", "0", "0x", "0X"]) + str(abs(v))
                else:
                    t = self.junk(src, str(v))
            elif k == "bool":
                t = src.choice(["0", "1", "true", "false", "TRUE", "FALSE", "True", "2", "", "00", "0x1", " 1", "yes", "tRUE"])
            else:
                a = src.int(-(10 ** src.int(0, 12)), 10 ** src.int(0, 12))
                t = str(a)
                if src.coin(0.7):
                    t += "." + "".join(src.choice("0123456789") for _ in range(src.int(0, 12)))
                if src.coin(0.4):
                    t += src.choice("eE") + src.choice(["", "+", "-"]) + str(src.int(0, 45 if k == "f" else 320) if src.coin(0.8)
                                                                         else src.int(0, 9))
                if m == 8:
                    t = "%.9g" % ps.bits_f32(src.below(0x7f800000))
                if m == 9:
                    t = self.junk(src, t)
            return {"k": "conv", "type": k, "t": t}

        def op(i):
            r = src.int(0, 9)
            if r < 5:
                return num()
            if r < 8:
                dl = src.choice([None, ",", ", ", "|", "{} ", "ab", " "])
                return {"k": "tok", "t": text(14), "d": dl, "m": src.coin()}
            if r == 8:
                return {"k": "join", "l": [text(4) for _ in range(src.int(0, 4))], "s": src.choice(["\n", ", ", "", "|"]),
                        "map": src.coin(0.3), "kv": src.choice([":", "="])}
            return {"k": "hex", "t": src.choice(["0x1", "0X1", "x0", "0", "", "0x", "00x1", "-0x1"])}
        return {"ops": src.list(1, 12, op, avg=8)}

    def junk(self, src, t):
        i = src.int(0, len(t))
        return t[:i] + src.choice([" ", "x", "-", "+", ".", "\n", "\t", "\v", "\f", "\r", "g", "0x", "e", "\0", ","]) + t[i:]

    def run(self, case, ctx):
        q = []
        for o in case["ops"]:
            if o["k"] == "conv":
                q.append(["uconv", o["type"], o["t"]])
            elif o["k"] == "tok":
                q.append(["utok", o["t"], o["d"] or "", 1 if o["m"] or not o["d"] else 0])
            elif o["k"] == "join":
                if o["map"]:
                    q.append(["ujoinmap", o["s"], o["kv"]] + [x for i, v in enumerate(o["l"]) for x in ("k%d" % i, v)])
                else:
                    q.append(["ujoin", o["s"]] + o["l"])
            else:
                q.append(["uhex", o["t"]])
        yes = no = split = 0
        for o, r in zip(case["ops"], ctx.run(q)):
            if o["k"] == "conv":
                t = o["t"]
                if o["type"] in ("f", "d"):
                    # forms whose acceptance is left to the C library
                    if re.search(r"[eE]", t) and not ps.REAL.fullmatch(t):
                        continue
                    fr = ps.parse_real(t)
                    if fr is not None and fr != 0 and abs(fr) < Fraction(1, 10 ** (44 if o["type"] == "f" else 320)):
                        continue
                want = number(t, o["type"])
                if want is None:
                    no += 1
                    expect(r[0] == "0", "converting %r to %s gives %s, expected a refusal", t, o["type"], r[1])
                else:
                    yes += 1
                    expect(r[0] == "1", "converting %r to %s is refused, expected %s", t, o["type"], want)
                    got = r[1]
                    if isinstance(want, float):
                        got = float.fromhex(got)
                        same = got == want and str(got)[0] == str(want)[0]
                    else:
                        same = got == want
                    expect(same, "converting %r to %s gives %s, expected %s", t, o["type"], got, want)
            elif o["k"] == "tok":
                want = pieces(o["t"], o["d"] or DEFAULT, o["m"] or not o["d"])
                split += len(want) > 1
                expect(r[1:] == want, "splitting %r at %r gives %r, expected %r", o["t"], o["d"], r[1:], want)
            elif o["k"] == "join":
                l = ["k%d%s%s" % (i, o["kv"], v) for i, v in enumerate(o["l"])] if o["map"] else o["l"]
                expect(r[1] == o["s"].join(l), "joining %r gives %r", o, r[1])
            else:
                expect(r[1] == ("1" if o["t"][:2] in ("0x", "0X") else "0"), "%r hexadecimal: %s", o["t"], r[1])
        return {"nontrivial": yes and no and split, "tags": ["conv"] if yes else []}


CHECK = C24
