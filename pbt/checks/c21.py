"""C21: the C interface selects and reports like the C++ one."""
import os
import pfdom
import pfstruct as ps
from pf import *

BAD = ["/sys/none", "", "/", "sys", "//", "/sys/", "do/not/exist", "/other", "/SYS"]
NULL = "\x01"


def c_criteria(src):
    """Criteria as the C interface can describe them."""
    out = []
    for i in range(src.int(0, 3)):
        incl = src.coin()
        n = src.weighted([(6, src.int(1, 5)), (2, src.choice([30, 31]) if incl else 40)])
        out.append({"name": "K%d" % i, "incl": incl, "vals": [[1 << j if incl else j, "v%d" % j] for j in range(n)], "state": 0})
    return out


def spoil(src, crits):
    """A description of criteria with something wrong in it, mostly."""
    l = [{"name": c["name"], "incl": c["incl"], "vals": [v for _, v in c["vals"]]} for c in crits]
    k = src.choice(["noname", "novals", "dup", "dupval", "many", "late", "none", "more", "emptyval", "emptyname"])
    if not l:
        l.append({"name": "K0", "incl": src.coin(), "vals": ["a", "b"]})
    c = src.choice(l)
    if k == "noname":
        c["name"] = None
    elif k == "novals":
        c["vals"] = None
    elif k == "dup":
        l.insert(src.below(len(l) + 1), {"name": c["name"], "incl": src.coin(), "vals": ["x"]})
    elif k == "dupval":
        c["vals"] = c["vals"] + [src.choice(c["vals"] or ["a"])] * (1 if c["vals"] else 2)
    elif k == "many":
        c["incl"] = src.coin(0.7)
        c["vals"] = ["w%d" % i for i in range(src.choice([32, 33, 64, 65, 100]))]
    elif k == "late":
        c["incl"], c["vals"] = True, ["w%d" % i for i in range(31)] + ["w0"]
    elif k == "none":
        l = []
    elif k == "more":
        l.append({"name": src.choice(["K9", "Includes", "é", "K 1"]), "incl": src.coin(), "vals": ["a"][:src.below(2)]})
    elif k == "emptyval":
        c["vals"] = c["vals"] + [""]
    else:
        c["name"] = src.choice([" ", "\t", "0"])
    return l


class C21(Check):
    pid = "C21"
    technique = "differential stateful testing: generated call sequences on several C handles, each call repeated on a C++ twin instance; status, last error, log lines, values and final state must be equal"
    note = ("Structures, criteria, settings and call sequences are generated; calls come in any order, also before, after failed and repeated starts, "
            "with criteria descriptions the interface documents as errors. A reference decides the errors which only the C interface knows "
            "(not started, started twice, unknown or malformed criteria); everything else is decided by the C++ twin. Runs under AddressSanitizer.")
    rule = "an application or parameter write through a started handle, and a failed call"
    quick, thorough = 14000, 200000
    profile = {"doms": (0, 2), "confs": (1, 3), "maxleaves": 6, "rec": 0.3}

    def gen(self, src, tier):
        p = self.profile
        case, w = pfdom.gen_world(src, p, tier)
        case["crits"] = c_criteria(src)
        w = pfdom.World(case["st"], case["crits"])
        if not case["crits"] or src.coin(0.1):
            case["ops"] = []
        else:
            case["ops"] = pfdom.gen_setup(src, w, p)
        leaves, nodes = w.vals.leaves, list(w.nodes.values())
        nh = src.int(1, 3)
        names = [c["name"] for c in case["crits"]]
        started, made, bound = set(), set(), {}

        def path():
            k = src.weighted([(10, "leaf"), (2, "node"), (1, "bad"), (1, "odd")])
            if k == "leaf":
                return src.choice(leaves).path
            if k == "node":
                return src.choice(nodes).path
            if k == "bad":
                return src.choice(BAD)
            return src.choice(leaves).path + src.choice(["/0", "/", "x", "/9"])

        def call(i):
            h = src.below(nh)
            if h not in made or src.coin(0.02):
                made.add(h)
                started.discard(h)
                bound[h] = {}
                return {"c": "create", "h": h}
            k = src.weighted([(1, "destroy"), (1 if h in started else 12, "start"), (6, "set"), (3, "get"), (6 if h in started else 2, "apply"),
                              (6, "bind"), (1, "unbind")] + [(4 if bound[h] else 0, x) for x in ("getint", "setint", "getstr", "setstr")])
            c = {"c": k, "h": h}
            if k == "destroy":
                made.discard(h)
            elif k == "start":
                c["cfg"] = src.weighted([(12, "good"), (1, "missing"), (1, "structure"), (1, "settings"), (1, "junk"), (1, "dir")])
                c["log"] = src.weighted([(3, 1), (1, 0), (1, 2)])
                if src.coin(0.25):
                    c["crits"] = spoil(src, case["crits"])
                elif c["cfg"] == "good":
                    started.add(h)
            elif k in ("set", "get"):
                c["name"] = src.choice(names) if names and not src.coin(0.15) else src.choice(["", "K9", "nothing", "k0", " K0"])
                if k == "set":
                    c["v"] = src.weighted([(6, src.int(0, 4)), (2, src.below(1 << 12)), (1, src.choice([-1, 1 << 30, (1 << 31) - 1, -(1 << 31), 77]))])
            elif k in ("bind", "unbind"):
                c["p"] = src.below(3)
                if k == "bind":
                    c["path"] = path()
                    if h in started and c["path"] in w.nodes:
                        bound[h][c["p"]] = c["path"]
                else:
                    bound[h].pop(c["p"], None)
            elif k in ("getint", "setint", "getstr", "setstr"):
                c["p"] = src.choice(sorted(bound[h]))
                n = w.nodes.get(bound[h][c["p"]])
                if k == "setint":
                    c["v"] = src.weighted([(5, src.int(0, 3)), (3, src.int(-130, 300)), (2, src.choice([-1, 32767, 65536, (1 << 31) - 1, -(1 << 31)]))])
                elif k == "setstr":
                    c["v"] = ps.gen_text(src, n, False, 0.25) if n is not None and n.is_leaf() else src.choice(["1", "x", ""])
                    c["v"] = c["v"].replace("\0", "")
            return c
        case["calls"] = src.list(2, 60, call, avg=22)
        return case

    def run(self, case, ctx):
        st = case["st"]
        w = pfdom.World(st, case["crits"])
        for o in case["ops"]:
            w.do(o)
        sp = ctx.write("struct.xml", ps.struct_xml(st))
        bp = ctx.write("bad.xml", ps.struct_xml(st).replace("<", "<<", 3))
        dp = ctx.write("domains.xml", pfdom.domains_xml(w)) if case["ops"] else None
        cfg = {"good": ctx.write("conf.xml", ps.config_xml(st, ctx.built, sp, dp, False)),
               "missing": os.path.join(ctx.dir, "none.xml"), "dir": ctx.dir, "junk": ctx.write("junk.xml", "<ParameterFrameworkConfiguration"),
               "structure": ctx.write("confb.xml", ps.config_xml(st, ctx.built, bp, dp, False)),
               "settings": ctx.write("confs.xml", ps.config_xml(st, ctx.built, sp, os.path.join(ctx.dir, "nodomains.xml"), False))}
        ctx.run([["reset"], ["rfault", "failRead", 1, "*"]])
        self.ctx, self.tags = ctx, set()
        hs = {}
        for n, c in enumerate(case["calls"]):
            what = "call %d %s" % (n, c)
            h, k = c["h"], c["c"]
            if k == "create":
                if h in hs:
                    self.destroy(h)
                hs[h] = {"on": False, "crits": set(), "bound": set(), "log": 0}
                self.same(["Ccreate", h], [True, ""], what)
                continue
            s = hs.get(h)
            if s is None:
                continue
            if k == "destroy":
                self.destroy(h)
                del hs[h]
                continue
            getattr(self, "do_" + ("par" if k in ("getint", "setint", "getstr", "setstr") else k))(h, s, c, what, case, cfg)
            self.logs(h, s, what)
        for h, s in hs.items():
            if s["on"]:
                self.state(h, s, w, "at last, handle %s" % h)
                self.logs(h, s, "at last")
        for h in list(hs):
            self.destroy(h)
        return {"nontrivial": {"acted", "failed"} <= self.tags, "tags": self.tags}

    def destroy(self, h):
        self.ctx.run([["Cdestroy", h], ["del", "t%s" % h]])

    def same(self, q, want, what, error=None):
        """Checks a C call against [success, value]; error: the expected message, None when any."""
        r = self.ctx.run([q])[0]
        ok, val = want
        expect((r[0] == "1") == ok, "%s: %s, expected %s", what, r, "success" if ok else "a failure")
        if ok:
            expect(r[1] == "", "%s: succeeded with the last error %r", what, r[1])
        else:
            self.tags.add("failed")
            expect(r[1] != "", "%s: failed without a last error", what)
            if error is not None:
                expect(r[1] == error, "%s: the last error is %r, the C++ one %r", what, r[1], error)
        if len(r) > 2:
            expect(r[2] == val, "%s: returned %r, expected %r", what, r[2], val)

    def logs(self, h, s, what):
        c = self.ctx.run([["Clog", h]])[0][1:]
        if s["log"] == 1 and s["on"]:
            t = self.ctx.run([["log", "t%s" % h]])[0][1:]
            expect(c == t, "%s: logged %s, the C++ instance %s", what, c, t)
            if t:
                self.tags.add("logged")
        elif s["log"] != 1:
            expect(not c, "%s: logged without a callback: %s", what, c)

    def do_start(self, h, s, c, what, case, cfg):
        l = c.get("crits")
        if l is None:
            l = [{"name": x["name"], "incl": x["incl"], "vals": [v for _, v in x["vals"]]} for x in case["crits"]]
        q = ["Cstart", h, cfg[c["cfg"]], c["log"]]
        for x in l:
            v = x["vals"]
            q += [NULL if x["name"] is None else x["name"], 1 if x["incl"] else 0, -1 if v is None else len(v)] + (v or [])
        if s["on"]:
            self.tags.add("again")
            return self.same(q, [False, ""], what)
        s["log"] = c["log"]
        t = "t%s" % h
        self.ctx.run([["new", t, cfg[c["cfg"]]]])
        known = set()
        why = self.describe(t, l, known)
        if why:
            self.same(q, [False, ""], what + " (%s)" % why)
            self.tags.add("criteria")
        else:
            r = self.ctx.run([["start", t]])[0]
            if r[0] != "1":
                self.tags.add("nostart")
            self.same(q, [r[0] == "1", ""], what, r[1])
            if r[0] == "1":
                s["on"], s["crits"] = True, known
                s["log"] = c["log"]
                return
        cl, tl = self.ctx.run([["Clog", h], ["log", t], ["del", t]])[:2]
        if c["log"] == 1 and not why:
            expect(cl == tl, "%s: logged %s, the C++ instance %s", what, cl, tl)

    def describe(self, t, l, known):
        """Creates the criteria of the twin; returns what is wrong with them."""
        for x in l:
            if x["name"] is None:
                return "no name"
            if x["vals"] is None:
                return "no values"
            if x["name"] in known:
                return "known criterion"
            if x["incl"] and len(x["vals"]) > 31:
                return "too many values"
            q = [["ctype", t, "t_" + x["name"], 1 if x["incl"] else 0]]
            q += [["cadd", t, "t_" + x["name"], 1 << i if x["incl"] else i, v] for i, v in enumerate(x["vals"])]
            if any(r[0] != "1" for r in self.ctx.run(q)):
                return "values refused"
            self.ctx.run([["crit", t, x["name"], "t_" + x["name"]]])
            known.add(x["name"])
        return ""

    def do_set(self, h, s, c, what, case, cfg):
        q = ["Cset", h, c["name"], c["v"]]
        ok = s["on"] and c["name"] in s["crits"]
        self.same(q, [ok, ""], what)
        if ok:
            self.ctx.run([["cset", "t%s" % h, c["name"], c["v"]]])

    def do_get(self, h, s, c, what, case, cfg):
        ok = s["on"] and c["name"] in s["crits"]
        v = self.ctx.run([["cget", "t%s" % h, c["name"]]])[0][1] if ok else ""
        self.same(["Cget", h, c["name"]], [ok, v], what)

    def do_apply(self, h, s, c, what, case, cfg):
        self.same(["Capply", h], [s["on"], ""], what)
        if s["on"]:
            self.tags.add("acted")
            self.ctx.run([["apply", "t%s" % h]])

    def do_bind(self, h, s, c, what, case, cfg):
        q = ["Cbind", h, c["p"], c["path"]]
        if not s["on"]:
            return self.same(q, [False, ""], what)
        r = self.ctx.run([["hnew", "t%s" % h, c["p"], c["path"], "p"]])[0]
        self.same(q, [r[0] == "1", ""], what, r[1])
        if r[0] == "1":
            s["bound"].add(c["p"])

    def do_unbind(self, h, s, c, what, case, cfg):
        if c["p"] in s["bound"]:
            s["bound"].discard(c["p"])
            self.ctx.run([["Cunbind", h, c["p"]]])

    def do_par(self, h, s, c, what, case, cfg):
        if c["p"] not in s["bound"]:
            return
        op = {"getint": "getSignedInteger", "setint": "setSignedInteger", "getstr": "getString", "setstr": "setString"}[c["c"]]
        v = [c["v"]] if c["c"].startswith("set") else []
        r = self.ctx.run([["h", "t%s" % h, c["p"], op] + v])[0]
        self.same(["Cp", h, c["p"], c["c"]] + v, [r[0] == "1", r[1] if r[0] == "1" and not v else ""], what, r[2])
        if v and r[0] == "1":
            self.tags.add("acted")

    def state(self, h, s, w, what):
        for l in w.vals.leaves:
            for a in (["getstr", "getint"] if not l.arr else ["getstr"]):
                self.do_bind(h, s, {"p": "z", "path": l.path}, what, None, None)
                self.do_par(h, s, {"p": "z", "c": a}, what + " " + l.path, None, None)
        for k in sorted(s["crits"]):
            self.do_get(h, s, {"name": k}, what + " " + k, None, None)


CHECK = C21
