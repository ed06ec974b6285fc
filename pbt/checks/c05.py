"""C05: a parameter accepts exactly its legal values and reads back what was written."""
import pfstruct as ps
from pf import *


class C05(Check):
    pid = "C05"
    technique = "property-based testing: generated parameter declarations and write histories against a reference codec, ASan+UBSan build"
    note = ("Accept/refuse, every parameter's text after every operation and write-back of the canonical text are compared with exact integer/rational arithmetic. Trusts the Python codec model; explores sampled inputs only.")
    rule = ("at least one text write accepted with a value different from the previous one and at least one "
            "refused write, on a started instance")
    quick, thorough = 30000, 300000

    def gen(self, src, tier):
        ps.LOWBITS = True
        o = ps.GenOpts(maxleaves=8, width=(1, 4), depth=2, arrays=0.4, rec=0.3)
        st = ps.gen_struct(src, o)
        root = ps.instantiate(st)
        leaves = root.leaves()
        fmt = [src.coin(), src.coin()]

        def op(i):
            if i and src.coin(0.15):
                fmt[0], fmt[1] = src.coin(), src.coin()
                return {"op": "fmt", "raw": fmt[0], "hex": fmt[1]}
            l = leaves[src.below(len(leaves))]
            path = l.path
            if l.kind in ps.INTLIKE and l.arr and src.coin(0.5):
                idx = src.int(0, l.arr - 1 + (1 if src.coin(0.2) else 0))
                path += "/%d" % idx
                if src.coin(0.8):
                    text = ps.gen_legal_scalar(src, l.e, fmt[0]) if src.coin(0.7) else \
                        ps.gen_illegal_scalar(src, l.e, fmt[0])
                else:
                    text = ps.gen_text(src, l, fmt[0])
            else:
                text = ps.gen_text(src, l, fmt[0])
                if src.coin(0.04):
                    path += src.choice(["/0", "/x", "x", "/"])
            return {"op": "set", "via": src.choice(["cmd", "api", "split"]), "path": path, "text": text}
        return {"st": st, "raw": fmt[0], "hex": fmt[1], "ops": [
            {"op": "fmt", "raw": fmt[0], "hex": fmt[1]}] + src.list(1, 14, op, avg=8)}

    def run(self, case, ctx):
        st = case["st"]
        root = ps.instantiate(st)
        m = ps.Values(root)
        must(ctx.run(boot(ctx, st)))
        raw = hx = False
        ctx_all = lambda what: check_all(ctx, m, raw, hx, what=what)
        ctx_all("after start")
        accepted = refused = 0
        tags = set()
        for n, o in enumerate(case["ops"]):
            what = "operation %d %r" % (n, o)
            if o["op"] == "fmt":
                raw, hx = o["raw"], o["hex"]
                must(ctx.run([["cmd", "a", "setValueSpace", "raw" if raw else "real"],
                              ["cmd", "a", "setOutputRawFormat", "hex" if hx else "dec"]]), what)
                ctx_all(what)
                continue
            path, text = o["path"], o["text"]
            before = m.copy()
            if o["path"].endswith("/"):
                continue
            if o["via"] == "api":
                q = ["api", "a", "setParameter", path, text]
            elif o["via"] == "split" and " " in text:
                q = ["cmd", "a", "setParameter", path] + text.split(" ")
                text = " ".join(trim(x) for x in text.split(" "))
            else:
                q = ["cmd", "a", "setParameter", path, text]
                text = trim(text)
            f = m.find(path)
            ok = m.set(path, text, raw)
            r = ctx.run([q])[0]
            if (r[0] == "1") != ok:
                raise Violation("%s: %s although the value is %s (%s); raw=%s" % (
                    what, "accepted" if r[0] == "1" else "refused", "legal" if ok else "illegal", r[1], raw))
            if not ok:
                refused += 1
                expect(r[1] != "", "%s: refused without an error", what)
                ctx_all(what + " (refused)")
                continue
            if m.v[f[0].path] != before.v[f[0].path]:
                accepted += 1
            tags.add(f[0].kind + ("[]" if f[0].kind != "str" and f[0].kind != "bit" and f[0].arr else ""))
            ctx_all(what + " (accepted)")
            # reading it by command, and writing back what was read
            g = ctx.run([["cmd", "a", "getParameter", path]])[0]
            canon = m.text(path, raw, hx)
            expect(g == ["1", canon], "%s: getParameter replies %r, expected %r", what, g, canon)
            if f[0].kind == "float" and 0 in m.v[f[0].path] and m.encode_all(f[0], canon, raw, f[1]) is None:
                # array elements never written hold 0, be it in range or not
                continue
            w = ctx.run([["api", "a", "setParameter", path, g[1]]])[0]
            if f[0].kind == "fix" and not raw:
                # what a raw write left below the resolution is lost
                m.set(path, canon, raw)
            expect(w[0] == "1", "%s: writing back %r is refused: %s", what, g[1], w[1])
            ctx_all(what + " (written back)")
        return {"nontrivial": accepted > 0 and refused > 0, "tags": tags}


CHECK = C05
