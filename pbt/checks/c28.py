"""C28: the Python interface does and answers the same as the C++ one."""
import importlib
import os
import drv
import pfdom
import pfstruct as ps
from pf import *

free_port = importlib.import_module("checks.c20").free_port
SIGS = {"setTuningMode": "b", "setAutoSync": "b", "sync": "", "createDomain": "s", "deleteDomain": "s", "renameDomain": "ss", "deleteAllDomains": "",
        "setSequenceAwareness": "sb", "getSequenceAwareness": "s", "createConfiguration": "ss", "deleteConfiguration": "ss", "renameConfiguration": "sss",
        "saveConfiguration": "ss", "restoreConfiguration": "ss", "addConfigurableElementToDomain": "ss", "removeConfigurableElementFromDomain": "ss",
        "split": "ss", "setElementSequence": "ssv", "setApplicationRule": "sss", "getApplicationRule": "ss", "clearApplicationRule": "ss",
        "importDomainsXml": "sbb", "importSingleDomainXml": "sbbb", "exportDomainsXml": "sbb", "exportSingleDomainXml": "ssbb",
        "accessParameterValue": "ssb", "accessConfigurationValue": "ssssb", "getParameterMapping": "s", "setValueSpace": "b", "setOutputRawFormat": "b",
        "getSelectionCriterion": "s", "setSchemaUri": "s"}
NOT = {"s": ["None", "5", "b'x'", "1.5", "[]", "object()", "True"], "b": ["None", "5", "'on'", "1.5", "[]", "object()", "''"],
       "v": ["None", "5", "[5]", "['a', None]", "object()", "1.5"]}
GOOD = {"s": "'D'", "b": "True", "v": "['/x']"}


class C28(Check):
    pid = "C28"
    variant = "py"
    technique = ("differential stateful testing: generated histories are executed through the Python bindings and through the C++ interface of the same "
                 "build; each answer (types included), log line, and the state at the end must be equal")
    note = ("Criteria, start-up policies, settings, tuning and all functions of the bindings, with legal and illegal arguments, text of any language, and "
            "calls with arguments of wrong types or number, which must raise and change nothing. Not under a sanitizer. "
            "Exceptions raised by a logger written in Python are not generated.")
    rule = "a value written or restored through Python, an error reported through Python, and settings exported"
    quick, thorough = 20000, 300000
    profile = {"weights": {"saveConf": 4, "restoreConf": 8, "setParam": 10, "setConfParam": 8, "createConf": 4, "deleteConf": 3, "deleteAllDomains": 1,
                           "renameConf": 3, "addElem": 5, "removeElem": 3, "split": 4, "setSequence": 5, "crit": 6, "apply": 5, "sync": 2,
                           "tuning": 3, "autosync": 3, "setSeq": 3, "createDomain": 3, "deleteDomain": 2, "renameDomain": 3,
                           "setRule": 4, "clearRule": 2, "space": 3},
               "doms": (0, 3), "confs": (0, 3), "n": (2, 24, 12), "file": 0.3, "overlap": 0.3, "rec": 0.0, "maxleaves": 8}

    def gen(self, src, tier):
        case = pfdom.gen_history(src, self.profile, tier)
        w = pfdom.World(case["st"], case["crits"])
        for o in case["ops"]:
            if hasattr(w, "do_" + o["op"]):
                w.do(o)
        leaves = w.vals.leaves
        nodes = sorted(w.nodes)

        def text():
            return src.choice(["D", "é", "日本", "a\0b", "", " ", "<&>\"'", "x" * 300, "\U0001f600"])

        def name(l):
            return src.choice(l) if l and src.coin(0.8) else text()

        def extra(i):
            k = src.weighted([(3, "get"), (3, "cget"), (2, "rule"), (2, "seq"), (2, "map"), (2, "export"), (2, "export1"), (2, "import"), (2, "import1"),
                              (2, "formats"), (2, "crit"), (2, "ctype"), (4, "odd"), (1, "opt"), (2, "names"), (1, "value")])
            at = src.int(0, 1000)
            d = name([x.name for x in w.doms])
            c = name([x.name for y in w.doms for x in y.confs])
            p = name([l.path for l in leaves]) if src.coin(0.8) else name(nodes)
            api = lambda *a: [at, ["api", "a"] + list(a)]
            if k == "get":
                return api("getParameter", p)
            if k == "cget":
                return api("getConfigurationParameter", d, c, p)
            if k == "rule":
                return api("getRule", d, c)
            if k == "seq":
                return api("getSequenceAwareness", d)
            if k == "map":
                return api("getParameterMapping", p)
            if k in ("export", "export1"):
                f, s = src.coin(0.4), src.coin(0.7)
                dest = src.choice(["@f", "@f", "@none/f"]) if f else src.choice(["", "before"])
                return api("exportDomains", dest, 1 if s else 0, 1 if f else 0) if k == "export" else api("exportDomain", dest, d, 1 if s else 0, 1 if f else 0)
            if k in ("import", "import1"):
                s = 1 if src.coin(0.7) else 0
                if src.coin(0.5):
                    return [at, [k, "a", s, src.int(0, 1), d]]
                return api("importDomains" if k == "import" else "importDomain", src.choice(["", "<x/>", "@f", "é<"]),
                           *([s, src.int(0, 1)] if k == "import" else [src.int(0, 1), s, src.int(0, 1)]))
            if k == "formats":
                return api("getFormats")
            if k == "crit":
                return [at, ["cget", "a", name([x["name"] for x in case["crits"]]) or "none"]]
            if k == "ctype":
                x = src.choice(case["crits"])
                v = src.choice(x["vals"])
                return [at, src.choice([["cnum", "a", "t_" + x["name"], name([v[1]])], ["clit", "a", "t_" + x["name"], v[0] if src.coin(0.7) else src.int(-9, 9)],
                                        ["cfmt", "a", "t_" + x["name"], src.choice([0, v[0], 3])]])]
            if k == "odd":
                f = src.choice(sorted(SIGS))
                sig = SIGS[f]
                args = [GOOD[t] for t in sig]
                if sig and src.coin(0.8):
                    i = src.below(len(sig))
                    args[i] = src.choice(NOT[sig[i]])
                elif sig and src.coin(0.5) and f != "importSingleDomainXml":
                    args.pop()
                else:
                    args += ["'more'", "1"][:1 + src.below(2)] + ["None"] * (3 if f == "importSingleDomainXml" else 0)
                return [at, ["odd", "a", f, "(" + "".join(x + ", " for x in args) + ")"]]
            if k == "opt":
                return [at, src.choice([["getopts", "a"], ["opt", "a", src.choice(["failMissing", "failSettings", "validate"]), src.int(0, 1)]])]
            if k == "names":
                f = src.choice(["createDomain", "renameDomain", "createConfiguration", "renameConfiguration"])
                return api(f, *{"createDomain": [text()], "renameDomain": [d, text()], "createConfiguration": [d, text()],
                                "renameConfiguration": [d, c, text()]}[f])
            return api("setParameter", p, text())
        case["extra"] = sorted(src.list(2, 20, extra, avg=9), key=lambda x: x[0])
        case["opts"] = src.list(0, 4, lambda i: [src.choice(["failMissing", "failMissing", "failSettings", "failSettings", "noremote", "noremote", "validate"]), src.int(0, 1)], avg=1)
        case["remote"] = src.coin(0.06)
        if case["remote"]:
            def words(i):
                d, c, p = name([x.name for x in w.doms]), name([x.name for y in w.doms for x in y.confs]), name([l.path for l in leaves])
                l = src.choice([["getParameter", p], ["setParameter", p, "1"], ["setTuningMode", src.choice(["on", "off"])], ["listDomains"], ["createDomain", d],
                                ["deleteDomain", d], ["getRule", d, c], ["restoreConfiguration", d, c], ["nothing"], ["status"], ["sync"],
                                ["setConfigurationParameter", d, c, p, "1"], ["renameDomain", d, "New"], ["getElementSequence", d, c]])
                if any(not x or "\0" in x or x != trim(x) for x in l):
                    l = ["listDomains"]
                return [src.int(0, 1000), ["chat" if src.coin(0.15) else "remote"] + l]
            case["extra"] = sorted(case["extra"] + src.list(1, 6, words, avg=3), key=lambda x: x[0])
        case["broken"] = src.choice(["structure", "settings", "type"]) if src.coin(0.06) else None
        return case

    def run(self, case, ctx):
        if "py" not in ctx.extra:
            ctx.extra["py"] = drv.PyDriver(ctx.built, ctx.limit, cwd=ctx.dir)
        py = ctx.extra["py"]
        st = case["st"]
        x = ps.struct_xml(st)
        if case["broken"] == "structure":
            x = x.replace("<", "<<", 3)
        elif case["broken"] == "type":
            x = x.replace('Type="Virtual"', 'Type="Missing"')
        sp = ctx.write("struct.xml", x)
        setup = case["ops"][:case["setup"]] if case["file"] else []
        dp = None
        if case["file"]:
            w = pfdom.World(st, case["crits"])
            for o in setup:
                w.do(o)
            dp = ctx.write("domains.xml", pfdom.domains_xml(w) if case["broken"] != "settings" else "<ConfigurableDomains")
        port = str(free_port()) if case["remote"] else None
        cp = ctx.write("conf.xml", ps.config_xml(st, ctx.built, sp, dp, True, plugin=False, port=port))
        both = [["reset"], ["new", "a", cp]] + [["opt", "a", k, v] for k, v in case["opts"] if k != "noremote" or v and not port]
        both += [["getopts", "a"]] + ([["serve", "a"]] if port else [])
        both += criteria_requests("a", case["crits"]) + [["start", "a"]]
        ops = case["ops"][case["setup"]:] if case["file"] else case["ops"]
        todo, ex = [], list(case["extra"])
        for i, o in enumerate(ops):
            while ex and ex[0][0] * len(ops) <= i * 1001:
                todo.append(ex.pop(0)[1])
            if o["op"] in ("hset", "putElem", "fault"):
                continue
            o = dict(o, via="api")
            if o["op"] == "setSequence" and not o["els"]:
                continue
            todo += pfdom.requests(o)
        todo += [e for _, e in ex]
        st = {"tags": set(), "wrote": False, "failed": False, "exported": False}

        def step(q, what):
            lines = [] if q[0] in ("reset",) else [["log", "a"]]
            if q[0] == "serve":
                # only Python's interface can be reached from outside
                st["tags"].add("serve")
                return py.run([["opt", "a", "noremote", 0]] + lines)[0]
            if q[0] == "chat":
                tool = [port, os.path.join(ctx.built.bin, "remote-process")]
                py.run([["chat"] + tool + ["setTuningMode", "on"]] + [["api", "a", f] for f in ("getFormats", "exportDomains", "isTuningModeOn") for _ in range(5)]
                       + [["api", "a", "setParameter", "/none", "1"]] * 20 + [["join"]] + lines)
                ctx.run([["cmd", "a", "setTuningMode", "on"]] + lines)
                st["tags"].add("chat")
                return ["1"]
            if q[0] == "remote":
                words = q[1:]
                a = ctx.run([["cmd", "a"] + words] + lines)
                b = py.run([["remote", port, os.path.join(ctx.built.bin, "remote-process")] + words] + lines)
                expect(b[0] == [a[0][0], a[0][1] + "\n"], "%s: a command sent to Python's is answered %s, C++ %s", what, b[0], a[0])
                expect(a[1] == b[1], "%s: a command sent to Python's logs %s, C++ %s", what, b[1], a[1])
                st["tags"].add("remote")
                return a[0]
            if q[0] == "odd":
                got = py.run([q] + lines)
                expect(got[0] == ["1"], "%s: taken, returning %s", what, got[0][1:])
                expect(len(got[1]) == 1, "%s: logs %s", what, got[1][1:])
                st["tags"].add("odd")
                return got[0]
            files = [os.path.join(ctx.dir, d) for d in ("c", "p")]
            a = ctx.run([[x.replace("@", files[0]) if isinstance(x, str) and x.startswith("@") else x for x in q]] + lines)
            try:
                b = py.run([[x.replace("@", files[1]) if isinstance(x, str) and x.startswith("@") else x for x in q]] + lines)
            except drv.Crash as c:
                raise Violation("%s: Python dies: %s" % (what, c))
            if q[0] == "getopts":
                a[0] = a[0][:6]
                if "serve" in st["tags"] and a[0][1] == "1":
                    # allowed in Python only
                    a[0][1] = "0"
            clean = lambda l, f: [x.replace(f, "@") for x in l]
            for n, (l, r) in enumerate(zip(a, b)):
                l, r = clean(l, files[0]), clean(r, files[1])
                expect(l == r, "%s: Python %s %s, C++ %s", what, "logs" if n else "answers", r, l)
            if q[0] == "api" and q[2].startswith("export") and q[-1] == 1 and a[0][0] == "1":
                texts = [open(f + "f", "rb").read() for f in files]
                expect(texts[0] == texts[1], "%s: Python exported %r, C++ %r", what, texts[1], texts[0])
            st["tags"].add(q[2] if q[0] == "api" else q[0])
            if q[0] == "api":
                st["wrote"] |= a[0][0] == "1" and q[2] in ("setParameter", "restoreConfiguration", "setConfigurationParameter")
                st["failed"] |= a[0][0] == "0"
                st["exported"] |= a[0][0] == "1" and q[2] in ("exportDomains", "exportDomain")
            return a[0]
        for f in ("cf", "pf"):
            p = os.path.join(ctx.dir, f)
            if os.path.exists(p):
                os.unlink(p)
        served = "Remote Processor Server started on port %s" % port

        def without_remote(l):
            """The lines logged by start outside the section of the remote interface."""
            out, inside = [], None
            for x in l:
                if inside is None and x.endswith("Handling remote processing interface {"):
                    inside = x[:x.index("Handling")] + "}"
                elif inside is None:
                    out.append(x)
                elif x == inside:
                    inside = None
            return out
        for q in both:
            if q[0] == "start" and port:
                r, l = py.run([q, ["log", "a"]])
                if r[0] == "0" and "Unable to listen" in r[1]:
                    # taken meanwhile
                    return {"nontrivial": False, "tags": {}}
                a = ctx.run([q, ["log", "a"]])
                expect(r == a[0] and (r[0] == "0" or any(x.endswith(served) for x in l)), "start: Python answers %s, C++ %s (%s)", r, a[0], l)
                r = a[0]
                expect(without_remote(l) == without_remote(a[1]), "start: Python logs %s, C++ %s", l, a[1])
                continue
            r = step(q, "%s %s" % (q[0], q[2:]))
        if r[0] != "1":
            # not started: nothing else is promised
            ctx.run([["del", "a"]])
            py.run([["del", "a"]])
            return {"nontrivial": False, "tags": {"start fails": 1}}
        step(["api", "a", "setTuningMode", 1], "setTuningMode")
        for n, q in enumerate(todo):
            what = "call %d %s" % (n, q[:1] + q[2:])
            if q[0] in ("import", "import1"):
                # what was exported just before
                with_s, over, d = q[2:]
                r = step(["api", "a", "exportDomains", "", with_s, 0] if q[0] == "import" else ["api", "a", "exportDomain", "", d, with_s, 0], what + " (export)")
                if r[0] == "1":
                    step(["api", "a", "importDomains", r[1], with_s, 0] if q[0] == "import" else ["api", "a", "importDomain", r[1], over, with_s, 0], what)
                continue
            step(q, what)
        leaves = pfdom.World(case["st"], case["crits"]).vals.leaves
        step(["mget", "a"] + [l.path for l in leaves], "values at the end")
        step(["api", "a", "exportDomains", "", 1, 0], "settings at the end")
        for c in case["crits"]:
            step(["cget", "a", c["name"]], "criterion at the end")
        return {"nontrivial": st["wrote"] and st["failed"] and st["exported"], "tags": dict((t, 1) for t in st["tags"])}


CHECK = C28
