"""C06: writing one parameter never changes another."""
import pfstruct as ps
from pf import *

CRIT = [{"name": "Mode", "incl": False, "vals": [[0, "x"], [1, "y"], [2, "z"]], "state": 0}]
STATES = ["x", "y", "z"]


def gen_domains(src, root, lo=1, hi=3):
    """Domains over generated elements; each element is offered at most once along a path per domain."""
    nodes = [n for n in root.all() if n.kind not in ("system",)]
    out = []
    for d in range(src.int(lo, hi)):
        chosen = []
        for _ in range(src.int(1, 4)):
            n = src.choice(nodes)
            if any(n.under(root_of[n2]) or root_of[n2].under(n) for n2 in chosen for root_of in [{x.path: x for x in nodes}]):
                continue
            chosen.append(n.path)
        out.append({"name": "D%d" % d, "els": chosen, "confs": [
            {"name": "c%d" % i, "state": src.choice(STATES)} for i in range(src.int(1, 2))], "seq": src.coin(0.3)})
    return out


def domain_requests(domains, slot="a"):
    q = []
    for d in domains:
        q.append(["cmd", slot, "createDomain", d["name"]])
        if d.get("seq"):
            q.append(["api", slot, "setSequenceAwareness", d["name"], 1])
        for e in d["els"]:
            q.append(["cmd", slot, "addElement", d["name"], e])
        for c in d["confs"]:
            q.append(["cmd", slot, "createConfiguration", d["name"], c["name"]])
            q.append(["cmd", slot, "setRule", d["name"], c["name"], "All{Mode Is %s}" % c["state"]])
    return q


class C06(Check):
    pid = "C06"
    technique = "property-based testing: generated structures, domains and write histories through every interface; frame condition on the whole byte image"
    note = ("After every operation the byte images of two instances are compared bit by bit; only bits of the parameters the operation "
            "names (or of the elements of the domains it applies) may differ. ASan+UBSan build, sampled inputs.")
    rule = "at least three operations that changed the byte image of the system, through at least two interfaces"
    quick, thorough = 24000, 240000

    def gen(self, src, tier):
        o = ps.GenOpts(maxleaves=14, width=(1, 4), depth=3, arrays=0.4, rec=0.4,
                       kinds=["int", "bool", "enum", "fix", "float", "str", "bits", "bits"])
        st = ps.gen_struct(src, o)
        root = ps.instantiate(st)
        leaves = root.leaves()
        nodes = root.all()
        doms = gen_domains(src, root)

        def op(i):
            k = src.weighted([(5, "set"), (3, "hset"), (2, "bytes"), (2, "hbytes"), (2, "xml"), (1, "save"), (2, "restore"),
                              (3, "cset"), (3, "apply"), (1, "idx")])
            which = "b" if src.coin(0.15) else "a"
            l = src.choice(leaves)
            if k == "set":
                return {"op": k, "on": which, "path": l.path, "text": ps.gen_text(src, l, False)}
            if k == "idx":
                arrs = [x for x in leaves if x.kind in ps.INTLIKE and x.arr]
                if not arrs:
                    return {"op": "set", "on": which, "path": l.path, "text": ps.gen_text(src, l, False)}
                l = src.choice(arrs)
                return {"op": "set", "on": which, "path": l.path + "/%d" % src.int(0, l.arr - 1),
                        "text": ps.gen_legal_scalar(src, l.e, False)}
            if k == "hset":
                if src.coin(0.6) or l.kind in ("str",):
                    if l.kind in ps.INTLIKE and l.arr:
                        return {"op": k, "on": which, "path": l.path, "f": "setStringArray",
                                "args": [ps.gen_legal_scalar(src, l.e, False) for _ in range(l.arr)]}
                    return {"op": k, "on": which, "path": l.path, "f": "setString", "args": [ps.gen_text(src, l, False)]}
                f, mk = src.choice([("Integer", lambda: src.int(0, 40)), ("SignedInteger", lambda: src.int(-20, 20)),
                                    ("Double", lambda: float(src.int(-20, 20)) / 4), ("Boolean", lambda: src.int(0, 1))])
                if l.kind in ps.INTLIKE and l.arr:
                    return {"op": k, "on": which, "path": l.path, "f": "set%sArray" % f, "args": [mk() for _ in range(l.arr)]}
                return {"op": k, "on": which, "path": l.path, "f": "set" + f, "args": [mk()]}
            n = src.choice(nodes)
            if k in ("bytes", "hbytes"):
                # legal contents only: zeros or what a legal value of each leaf gives
                v = ps.Values(root, "zero")
                for x in n.leaves():
                    if x.kind in ps.INTLIKE:
                        v.v[x.path] = [ps.gen_stored(src, x.e) for _ in range(max(1, x.arr))]
                    elif x.kind == "bit":
                        v.v[x.path] = src.int(0, (1 << x.e["size"]) - 1)
                    else:
                        v.v[x.path] = "s" * src.int(0, x.e["maxlen"])
                b = v.bytes(n)
                if n.kind == "bits" and src.coin():
                    b = bytes(src.int(0, 255) for _ in b)
                return {"op": k, "on": which, "path": n.path, "hex": b.hex()}
            if k == "xml":
                return {"op": k, "on": which, "path": n.path, "from": src.int(0, 1)}
            d = src.choice(doms)
            c = src.choice(d["confs"])["name"]
            if k in ("save", "restore"):
                return {"op": k, "d": d["name"], "c": c}
            if k == "cset":
                return {"op": k, "d": d["name"], "c": c, "path": l.path, "text": ps.gen_text(src, l, False)}
            return {"op": "apply", "state": src.int(0, 2)}
        return {"st": st, "doms": doms, "ops": src.list(2, 16, op, avg=10)}

    def run(self, case, ctx):
        st = case["st"]
        root = ps.instantiate(st)
        nodes = {n.path: n for n in root.all()}
        must(ctx.run(boot(ctx, st, "a", CRIT)))
        must(ctx.run(boot(ctx, st, "b", reset=False)))
        must(ctx.run(domain_requests(case["doms"])), "creating domains")
        doms = {d["name"]: d for d in case["doms"]}
        lay = ps.layout(root)
        dmask = {}
        for d in case["doms"]:
            dmask[d["name"]] = 0
            for e in d["els"]:
                n = nodes[e]
                dmask[d["name"]] |= ps.allowed_mask(root, [e]) if n.is_leaf() else self.range_of(root, n, lay)
        dleaves = {d["name"]: {l.path for e in d["els"] for l in nodes[e].leaves()} for d in case["doms"]}
        xmls = {}

        img = lambda: [int.from_bytes(r[1], "little") for r in
                       (x for x in ctx.run([["hmbytes", "a", "/sys"], ["hmbytes", "b", "/sys"]], raw=True))]
        size = root.size()
        cur = img()
        # alternative contents for XML writes
        changed, vias = 0, set()
        confs_of = {}
        for n, o in enumerate(case["ops"]):
            what = "operation %d %r" % (n, o)
            k = o["op"]
            slot = o.get("on", "a")
            allowed = [0, 0]
            side = 0 if slot == "a" else 1
            may = set()
            if k == "set":
                q = [["cmd", slot, "setParameter", o["path"], o["text"]]]
                base = o["path"] if o["path"] in nodes else o["path"].rpartition("/")[0]
                may = {base}
            elif k == "hset":
                # handles write outside of tuning mode; leaving tuning applies configurations
                if slot == "a":
                    pre = ctx.run([["cmd", "a", "setTuningMode", "off"]])
                    must(pre, what)
                    cur = img()
                q = [["hpath", slot, o["path"], o["f"]] + o["args"]]
                if slot == "b":
                    q = [["cmd", "b", "setTuningMode", "off"]] + q + [["cmd", "b", "setTuningMode", "on"]]
                else:
                    q = q + [["cmd", "a", "setTuningMode", "on"]]
                may = {o["path"]}
            elif k in ("bytes", "hbytes"):
                b = bytes.fromhex(o["hex"])
                if k == "bytes":
                    q = [["cmd", slot, "setElementBytes", o["path"]] + ["0x%02x" % x for x in b]] if b else []
                else:
                    q = [["hpath", slot, o["path"], "setBytes", b]]
                may = None
                lo = self.range_of(root, nodes[o["path"]], lay)
                allowed[side] = lo
            elif k == "xml":
                key = (o["path"], slot)
                g = ctx.run([["hpath", slot, o["path"], "getXML"]])[0]
                old = xmls.get(key)
                xmls[key] = g[1]
                q = [["hpath", slot, o["path"], "setXML", old if old and o["from"] else g[1]]]
                may = {l.path for l in nodes[o["path"]].leaves()}
            elif k == "save":
                q = [["cmd", "a", "saveConfiguration", o["d"], o["c"]]]
            elif k == "restore":
                q = [["cmd", "a", "restoreConfiguration", o["d"], o["c"]]]
                may = None
                allowed[0] = dmask[o["d"]]
            elif k == "cset":
                q = [["cmd", "a", "setConfigurationParameter", o["d"], o["c"], o["path"], o["text"]]]
                may = {o["path"]} if o["path"] in dleaves[o["d"]] else set()
            else:
                s = STATES[o["state"]]
                q = [["cset", "a", "Mode", o["state"]], ["cmd", "a", "setTuningMode", "off"], ["apply", "a"],
                     ["cmd", "a", "setTuningMode", "on"]]
                may = None
                for d in case["doms"]:
                    if any(c["state"] == s for c in d["confs"]):
                        allowed[0] |= dmask[d["name"]]
            if may is not None:
                allowed[side] = ps.allowed_mask(root, may)
            ctx.run(q) if q else None
            new = img()
            for i in (0, 1):
                diff = cur[i] ^ new[i]
                bad = diff & ~allowed[i]
                if bad:
                    bit = (bad & -bad).bit_length() - 1
                    raise Violation("%s: changed bit %d of byte %d of instance %s, which belongs to %s" % (
                        what, bit % 8, bit // 8, "ab"[i], self.owner(lay, bit)))
                if diff:
                    changed += 1
                    vias.add(k)
            cur = new
        return {"nontrivial": changed >= 3 and len(vias) >= 2, "tags": vias}

    def owner(self, lay, bit):
        for p, (off, mask, _) in lay.items():
            if bit >= 8 * off and mask >> (bit - 8 * off) & 1:
                return p
        return "no parameter"

    def range_of(self, root, node, lay):
        """All bits of an element, gaps included."""
        if node.kind == "bit":
            return 0
        ls = node.leaves()
        lo = min(lay[l.path][0] for l in ls)
        return ((1 << 8 * node.size()) - 1) << 8 * lo


CHECK = C06
