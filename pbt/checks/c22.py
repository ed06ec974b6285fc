"""C22: concurrent users never see torn values or lose writes."""
import re
import pfdom
import pfstruct as ps
from pf import *

SUB = "/sys/s0"
READS = ["own", "string", "text", "xml", "bytes", "cmd", "cmdxml", "cmdbytes", "whole", "dump", "once"]
COMMANDS = {"cmd": "getParameter", "cmdxml": "getElementXML", "cmdbytes": "getElementBytes", "dump": "dumpElement"}


class C22(Check):
    pid = "C22"
    technique = ("concurrent property-based testing: generated programs run by several threads under ThreadSanitizer, each thread's observations checked "
                 "against invariants of one-at-a-time execution (own writes read back, no torn values, no value going back, nothing lost at the end)")
    note = ("Threads write cells they own through handles (scalars, arrays, strings, bits of a shared block, whole blocks as XML or bytes), apply "
            "configurations, read by handle, typed call and command, and switch tuning. Schedules are those of the operating system, varied by generated "
            "programs, thread counts and yields; ThreadSanitizer finds unordered accesses whatever the schedule. Criteria are set by the one "
            "thread that applies. Commands that edit domains are not run concurrently with other calls: nothing in the framework orders them.")
    rule = "a thread saw a cell that another thread wrote or applied change"
    quick, thorough = 5000, 60000
    variant = "tsan"
    shrink_s = 20
    limit = 120

    # ------------------------------------------------------------ generation
    def gen(self, src, tier):
        nt = src.int(2, 5)
        case = {"rec": src.coin(0.3), "rounds": src.choice([10, 25, 60, 120]), "seq": src.coin(0.3), "tuning": src.coin(0.3)}
        cells = []
        for i in range(src.int(1, 4)):
            k = src.weighted([(4, "int"), (1, "float"), (2, "str")])
            c = {"k": k, "owner": src.below(nt)}
            if k == "int":
                c["size"] = src.choice([8, 16, 32])
                if src.coin(0.3):
                    c["max"] = 121
            if k != "str" and src.coin(0.6):
                c["arr"] = src.int(2, 8)
            cells.append(c)
        case["cells"] = cells
        case["bits"] = [{"owner": src.below(nt), "size": src.int(1, 5)} for _ in range(src.int(2, 4))] if src.coin(0.7) else []
        case["bitsize"] = src.choice([32, 64])
        case["dom"] = [src.choice([0, 0, 3, 6]) for _ in range(src.int(1, 3))] if src.coin(0.7) else []
        case["confs"] = src.int(2, 3)
        case["whole"] = [src.below(nt), src.int(2, 5), src.choice(["xml", "bytes"])] if src.coin(0.6) else None
        names = self.names(case)
        case["prog"] = [src.list(1, 7, lambda i: self.gen_op(src, case, t, nt, names), avg=3.5) for t in range(nt)]
        for t, p in enumerate(case["prog"]):
            # owners do write
            mine = [n for n, c in names.items() if c.get("owner") == t]
            if mine and not any(o[0] == "w" for o in p):
                p.insert(src.below(len(p) + 1), ["w", src.choice(mine)])
        return case

    def names(self, case):
        """Name of every cell -> what it is."""
        out = {"c%d" % i: c for i, c in enumerate(case["cells"])}
        out.update({"b%d" % i: dict(c, k="bit") for i, c in enumerate(case["bits"])})
        out.update({"d%d" % i: {"k": "dom", "arr": n} for i, n in enumerate(case["dom"])})
        if case["whole"]:
            out["X"] = {"k": "X", "owner": case["whole"][0], "n": case["whole"][1]}
        return out

    def gen_op(self, src, case, t, nt, names):
        mine = [n for n, c in names.items() if c.get("owner") == t]
        k = src.weighted([(4 if mine else 0, "w"), (5, "r"), (1 if mine else 0, "bad"), (1, "yield"), (1, "all"),
                          (4 if t == 0 and case["dom"] and not case["tuning"] else 0, "conf"), (1 if case["tuning"] or t == 0 else 0, "apply"),
                          (4 if t == nt - 1 and case["tuning"] else 0, "pair"), (1 if t == nt - 1 and case["tuning"] else 0, "set")])
        if k in ("w", "bad"):
            return [k, src.choice(mine)]
        if k == "r":
            own = [x for x in READS if t == 1 or x not in COMMANDS]
            return [k, src.choice(mine) if mine and src.coin(0.4) else src.choice(list(names)), src.choice(own)]
        if k == "all":
            return [k, src.choice(["xml", "cmdxml"] if t == 1 else ["xml"])]
        if k == "conf":
            return [k, src.below(case["confs"])]
        if k == "pair":
            l = [n for n, c in names.items() if c["k"] != "X"]
            return [k, src.choice(l), src.choice(["own", "text"])] if l else ["yield"]
        if k == "set":
            return [k, "d0"] if case["dom"] else ["yield"]
        return [k]

    # ------------------------------------------------------------ structure
    def path(self, n):
        if n[0] == "b":
            return SUB + "/B/" + n
        return SUB + ("/D/" if n[0] == "d" else "/") + n

    def struct(self, case):
        inst = []
        for n, c in self.names(case).items():
            e = {"k": c["k"], "n": n}
            if c["k"] == "int":
                e.update(size=c["size"], signed=False)
                if c.get("max"):
                    e["max"] = c["max"]
            elif c["k"] == "str":
                e["maxlen"] = 40
            elif c["k"] == "X":
                e = {"k": "block", "n": n, "kids": [{"k": "int", "n": "x%d" % i, "size": 8, "signed": False} for i in range(c["n"])]}
            elif c["k"] != "float":
                continue
            if c.get("arr") and c["k"] != "X":
                e["arr"] = c["arr"]
            inst.append(e)
        if case["bits"]:
            pos, bits = 0, []
            for i, b in enumerate(case["bits"]):
                bits.append({"n": "b%d" % i, "pos": pos, "size": b["size"]})
                pos += b["size"]
            inst.append({"k": "bits", "n": "B", "size": case["bitsize"], "bits": bits})
        if case["dom"]:
            kids = []
            for i, n in enumerate(case["dom"]):
                kids.append({"k": "int", "n": "d%d" % i, "size": 16, "signed": False})
                if n:
                    kids[-1]["arr"] = n
            inst.append({"k": "block", "n": "D", "kids": kids})
        if case["rec"]:
            for e in inst:
                e["map"] = "Obj:%s" % e["n"]
        return {"name": "sys", "subs": [{"name": "s0", "type": "REC" if case["rec"] else "Virtual", "types": [], "inst": inst}]}

    def settings(self, case, st, crits):
        w = pfdom.World(st, crits)
        ops = [{"op": "createDomain", "d": "D0"}, {"op": "addElem", "d": "D0", "e": SUB + "/D"}]
        for j in range(case["confs"]):
            ops.append({"op": "createConf", "d": "D0", "c": "c%d" % j})
            for i, n in enumerate(case["dom"]):
                ops.append({"op": "setConfParam", "d": "D0", "c": "c%d" % j, "p": self.path("d%d" % i), "t": " ".join([str(self.value(j))] * (n or 1))})
            ops.append({"op": "setRule", "d": "D0", "c": "c%d" % j, "rule": ["All", [["C", "K0", "Is", "v%d" % j]]], "text": ""})
        if case["seq"]:
            ops.append({"op": "setSeq", "d": "D0", "v": True})
        w.tuning = True
        for o in ops:
            ok, _ = w.do(dict(o, via="cmd"))
            if not ok:
                raise HarnessError("%r refused by the model" % o)
        return pfdom.domains_xml(w)

    def value(self, j):
        return 1000 * (j + 1)

    # ------------------------------------------------------------ programs
    def text(self, c, what="{#}"):
        """A value to write, as arguments."""
        if c["k"] == "str":
            return ["{@%d}" % (39 if what == "{#}" else 41)]
        if c["k"] == "bit":
            return ["{%%%d}" % (1 << c["size"])] if what == "{#}" else [str(1 << c["size"])]
        if what != "{#}":
            what = "100000" if c["k"] == "int" and c["size"] < 32 else "200" if c.get("max") else "1e39" if c["k"] == "float" else "{#}"
        return [what] * (c.get("arr") or 1)

    def xml(self, n, value="{#}"):
        return '<ParameterBlock Name="X">' + "".join('<IntegerParameter Name="x%d">%s</IntegerParameter>' % (i, value if i == n - 1 else "{#}")
                                                     for i in range(n)) + "</ParameterBlock>"

    def native(self, case, o, names):
        """Driver operations of an operation, with the meaning of their replies."""
        k = o[0]
        if k == "yield":
            return [(["yield"], None)]
        if k == "apply":
            return [(["apply"], None)]
        if k == "all":
            return [((["hget", SUB, "getXML"] if o[1] == "xml" else ["cmd", "getElementXML", SUB]), ("all",))]
        if k == "conf":
            return [(["cset", "K0", o[1]], None), (["apply"], ("conf", o[1]))]
        n = o[1]
        c, p = names[n], self.path(n)
        a = "Array" if c.get("arr") else ""
        if k == "set":
            return [(["tune", "1"], ("tune",)), (["pset", p, " ".join(["77"] * (c["arr"] or 1))], ("ok",)), (["tune", "0"], ("tune",))]
        if k == "pair":
            r = self.native(case, ["r", n, o[2]], names)[0]
            return [(["tune", "1"], ("tune",)), (r[0], ("first",) + r[1][1:]), (["yield"], None), (r[0], ("second",) + r[1][1:]), (["tune", "0"], ("tune",))]
        if k == "w":
            if c["k"] == "X":
                v = ["setXML", self.xml(c["n"])] if case["whole"][2] == "xml" else ["setBytes", "{!%d}" % c["n"]]
                return [(["hset", p] + v, ("wrote", n))]
            f = {"str": "String", "float": "Double"}.get(c["k"], "Integer")
            return [(["hset", p, "set" + f + a] + self.text(c), ("wrote", n))]
        if k == "bad":
            if c["k"] == "X":
                v = ["setXML", self.xml(c["n"], "256")] if case["whole"][2] == "xml" else ["setBytes", "{!%d}" % (c["n"] + 1)]
                return [(["hset", p] + v, ("refused",))]
            v = self.text(c, "bad")
            if v == self.text(c):
                return [(["yield"], None)]
            f = {"str": "String", "float": "Double"}.get(c["k"], "Integer")
            return [(["hset", p, "set" + f + a] + v, ("refused",))]
        how = o[2]
        leaf = c["k"] != "X"
        if how == "text" and leaf:
            q, form = ["pget", p], "text"
        elif how == "cmd" and leaf:
            q, form = ["cmd", "getParameter", p], "text"
        elif how in COMMANDS and how != "cmd":
            if how == "cmdbytes" and c["k"] in ("bit", "str"):
                how = "cmdxml"
            q, form = ["cmd", COMMANDS[how], p], {"cmdxml": "xml", "cmdbytes": "words", "dump": "none"}[how]
        elif how == "string" and leaf and not a:
            q, form = ["hget", p, "getString"], "text"
        elif how in ("own", "once", "string") and leaf:
            f = {"str": "String", "float": "Double"}.get(c["k"], "Integer")
            q, form = ["hone" if how == "once" else "hget", p, "get" + f + a], "typed"
        elif how == "whole" and n[0] in "bd":
            q, form = ["hget", SUB + ("/B" if n[0] == "b" else "/D"), "getXML"], "xml"
        elif how == "bytes" and c["k"] not in ("bit", "str"):
            q, form = ["hget", p, "getBytes"], "bytes"
        else:
            q, form = ["hget", p, "getXML"], "xml"
        return [(q, ("read", n, form))]

    # ------------------------------------------------------------ observations
    def parse(self, case, c, n, form, reply):
        """The value of a cell in a reply: one number or text; complains about torn ones."""
        if form == "none":
            return None
        if form == "typed":
            l = reply[1:] if c.get("arr") else [reply[0]]
            if c.get("arr"):
                l = reply[1:]
        elif form == "text":
            l = reply[0].split(" ") if c.get("arr") else [reply[0]]
        elif form == "xml":
            if c["k"] == "X":
                l = re.findall(r'Name="x\d"[^<>]*>([^<]*)<', reply[0])
                expect(len(l) == c["n"], "%s: reads %r", n, reply[0])
            else:
                m = re.search(r'Name="%s"[^<>]*>([^<]*)<' % n, reply[0]) or re.search(r'Name="%s"[^<>]*(/)>' % n, reply[0])
                expect(m, "%s: is not in %r", n, reply[0])
                t = "" if m.group(1) == "/" else m.group(1)
                l = t.split(" ") if c.get("arr") else [t]
        else:
            b = bytes.fromhex(reply[0]) if form == "bytes" else bytes(int(x, 16) for x in reply[0].split(" "))
            if c["k"] == "X":
                l = list(b)
            else:
                size = {"dom": 16, "float": 32}.get(c["k"], c.get("size")) // 8
                l = [int.from_bytes(b[i:i + size], "little") for i in range(0, len(b), size)]
                if c["k"] == "float":
                    l = [ps.bits_f32(x) for x in l]
        if c["k"] != "str":
            try:
                l = [float.fromhex(x) if isinstance(x, str) and "0x" in x else float(x) for x in l]
            except ValueError:
                raise Violation("%s reads %r" % (n, reply))
        if c["k"] != "X" and (c.get("arr") or 1) != len(l):
            raise Violation("%s reads %d values: %r" % (n, len(l), reply))
        expect(all(x == l[0] for x in l), "%s: the parts of one value are from different writes: %r", n, l)
        return l[0]

    def legal(self, case, c, v, rounds):
        if c["k"] == "str":
            return v == "" or len(v) == 39 and len(set(v)) == 1
        if c["k"] == "bit":
            return v == int(v) and 0 <= v < 1 << c["size"]
        if c["k"] == "dom":
            return v in [self.value(j) for j in range(case["confs"])] or case["tuning"] and v == 77
        return v == int(v) and 0 <= v <= rounds

    def written(self, c, r):
        if c["k"] == "str":
            return chr(97 + r % 26) * 39
        return r % (1 << c["size"]) if c["k"] == "bit" else r

    def run(self, case, ctx):
        names = self.names(case)
        st = self.struct(case)
        rounds = case["rounds"]
        crits = [{"name": "K0", "incl": False, "vals": [[j, "v%d" % j] for j in range(case["confs"])], "state": 0}]
        xml = self.settings(case, st, crits) if case["dom"] else None
        must(ctx.run(boot(ctx, st, "a", crits, domains=xml, tuning_on=False) + [["opt", "a", "keeplog", 0], ["rrecord", 0]]))
        q, meaning = ["threads", "a", rounds], []
        for p in case["prog"]:
            q.append("T")
            meaning.append([])
            for o in p:
                for req, m in self.native(case, o, names):
                    q += ["o", len(req)] + req
                    meaning[-1].append(m)
        rep = ctx.run([q])[0][1:]
        self.tags = set()
        t = -1
        obs = []
        for line in rep:
            if line == "T%d" % len(obs):
                obs.append([])
            else:
                obs[-1].append(line.split("\x1f"))
        for t, lines in enumerate(obs):
            self.thread(case, names, t, meaning[t], lines, rounds)
        self.final(case, names, ctx, rounds, meaning)
        return {"nontrivial": "changed" in self.tags, "tags": self.tags}

    def thread(self, case, names, t, meaning, lines, rounds):
        last = {n: (self.written(c, 0) if c["k"] != "str" else "") for n, c in names.items() if c.get("owner") == t}
        seen, first, pair = {}, {}, None
        sure = not case["tuning"]
        conf = None
        it = iter(lines)
        for r in range(1, rounds + 1):
            for i, m in enumerate(meaning):
                if m is None:
                    continue
                if m[0] == "conf":
                    conf = m[1]
                    continue
                f = next(it)
                if [f[0], f[1]] != [str(i), str(r)]:
                    raise HarnessError("observations out of step: %r" % f)
                ok, reply = f[2] == "1", f[3:]
                what = "thread %d, round %d, operation %d" % (t, r, i)
                if m[0] == "refused":
                    # handles ignore legal and illegal values alike in tuning
                    if not case["tuning"]:
                        expect(not ok, "%s: a wrong value was accepted", what)
                    continue
                expect(ok, "%s: %s failed: %s", what, m, reply)
                if m[0] == "wrote":
                    last[m[1]] = self.written(names[m[1]], r)
                if m[0] in ("read", "first", "second"):
                    self.check(case, names, m[1], m[2], reply, what, last, seen, conf, rounds, sure)
                    v = seen.get(m[1])
                    if m[0] == "first":
                        pair = v
                    elif m[0] == "second":
                        expect(v == pair, "%s: %s changed from %r to %r in tuning mode", what, m[1], pair, v)
                        self.tags.add("pair")
                elif m[0] == "all":
                    for n in names:
                        self.check(case, names, n, "xml", reply, what, last, seen, conf, rounds, sure)
                    self.tags.add("all")

    def check(self, case, names, n, form, reply, what, last, seen, conf, rounds, sure):
        c = names[n]
        try:
            v = self.parse(case, c, n, form, reply)
        except Violation as ex:
            raise Violation("%s: %s" % (what, ex))
        if v is None:
            return
        expect(self.legal(case, c, v, rounds), "%s: %s reads %r, which nobody wrote", what, n, v)
        if n in last:
            if sure or c["k"] == "X":
                expect(v == last[n], "%s: %s reads %r, this thread wrote %r", what, n, v, last[n])
        elif c["k"] == "dom":
            if conf is not None and sure:
                expect(v == self.value(conf), "%s: %s reads %r after the application of %r", what, n, v, self.value(conf))
        if c["k"] not in ("str", "bit", "dom") and n in seen:
            expect(v >= seen[n], "%s: %s goes back from %r to %r", what, n, seen[n], v)
        if n in seen and seen[n] != v and n not in last and not (c["k"] == "dom" and conf is not None):
            self.tags.add("changed")
        seen[n] = v

    def final(self, case, names, ctx, rounds, meaning):
        rep = ctx.run([["api", "a", "isTuningModeOn"], ["hpath", "a", SUB, "getXML"], ["rget"]])
        expect(rep[0][1] == "0", "tuning mode is on at last")
        conf = [m[1] for m in meaning[0] if m and m[0] == "conf"]
        for n, c in names.items():
            v = self.parse(case, c, n, "xml", rep[1][1:2])
            wrote = any(m == ("wrote", n) for l in meaning for m in l)
            if c["k"] == "dom":
                want = self.value(conf[-1] if conf else 0)
                expect(v == want, "at last %s is %r, the configuration has %r", n, v, want)
            elif wrote and (not case["tuning"] or c["k"] == "X"):
                expect(v == self.written(c, rounds), "at last %s is %r, %r was written", n, v, self.written(c, rounds))
            else:
                expect(self.legal(case, c, v, rounds), "at last %s reads %r, which nobody wrote", n, v)
        if case["rec"]:
            back = dict(zip(rep[2][1::2], rep[2][2::2]))
            tops = [e["n"] for e in self.struct(case)["subs"][0]["inst"]]
            live = ctx.run([["hmbytes", "a"] + [SUB + "/" + n for n in tops]], raw=True)[0][1:]
            raw = ctx.run([["rget"]], raw=True)[0][1:]
            back = {k.decode(): v for k, v in zip(raw[::2], raw[1::2])}
            self.tags.add("backend")
            for n, b in zip(tops, live):
                p = SUB + "/" + n
                if p in back:
                    expect(back[p] == b, "at last the subsystem holds %r for %s, the framework %r", back[p], p, b)


CHECK = C22
