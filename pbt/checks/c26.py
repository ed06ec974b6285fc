"""C26: the coverage report counts exactly what the log shows."""
import fractions
import gc
import io
import logging
import os
import re
import signal
import subprocess
import sys
import xml.etree.ElementTree as ET

import pfdom
from pf import *

TOOLS = "/repo/tools/coverage"
WEIGHTS = {"crit": 24, "apply": 18, "tuning": 4, "restoreConf": 1, "setParam": 1}
PREFIX = ["", "I/pfw  (  123): ", "01-01 00:00:01.234 ", "\t"]
NOISE = ["D/other (77): Applying nothing", "Criterion K0", "I/x: Selection criteria changed", "", "I Loading {", "états"]
FLAGS = {"unknown": "--ignore-unknown-criterion", "incoherent": "--ignore-incoherent-criterion-state",
         "ineligible": "--ignore-ineligible-configuration-application"}


# ---------------------------------------------------------------- model of the report
class Node:
    def __init__(self, tag, name, kids=(), deps=None, **at):
        self.tag, self.name, self.kids, self.use, self.at = tag, name, list(kids), 0, at
        self.deps = deps
        self.loose = False

    def below(self):
        for k in self.kids:
            yield k
            yield from k.below()

    def coverage(self):
        deps = self.kids if self.deps is None else list(self.deps())
        if not deps:
            return fractions.Fraction(1 if self.use else 0)
        return sum((d.coverage() for d in deps), fractions.Fraction(0)) / len(deps)


def rule_node(r, crits, canon):
    if r[0] in ("All", "Any"):
        # simple rules come before compound ones
        kids = [k for k in r[1] if k[0] == "C"] + [k for k in r[1] if k[0] != "C"]
        n = Node("CompoundRule", r[0], [rule_node(k, crits, canon) for k in kids])
        n.rule = [r[0], kids]
    else:
        v = pfdom.canon_value(crits[r[1]], pfdom.crit_value(crits[r[1]], r[3])) if canon else r[3]
        n = Node("SelectionCriterionRule", "%s %s %s" % (r[1], r[2], v))
        n.rule = r
    return n


def use_rule(n, crits, states):
    """Evaluates a rule lazily, counting the parts found true."""
    r = n.rule
    if r[0] == "C":
        ok = pfdom.rule_true(r, crits, states)
    else:
        ok = r[0] == "All"
        for k in n.kids:
            if use_rule(k, crits, states) != ok:
                ok = not ok
                break
    n.use += ok
    return ok


class Failed(Exception):
    pass


class Report:
    """What the tool must say. doms: the domains of the settings document; events: what the log shows."""

    def __init__(self, doms, crits, flags, canon):
        self.c, self.flags = {c["name"]: c for c in crits}, flags
        self.confs = {}
        ds = []
        for d in doms:
            cs = []
            for c in d.confs:
                root = Node("RootRule", "RootRule", [rule_node(c.rule, self.c, canon)] if c.rule is not None else [])
                root.deps = root.below
                st = Node("CriterionStates", "CriterionStates")
                n = Node("Configuration", c.name, [root, st], lambda root=root: [root])
                self.confs[d.name, c.name] = n
                cs.append(n)
            ds.append(Node("ConfigurableDomain", d.name, cs))
            for n in cs:
                n.up = ds[-1]
        self.domains = Node("Domains", "Domains", ds)
        self.criteria = Node("Criteria", "CriterionRoot")
        self.root = Node("CoverageReport", "DomainCoverage", [self.domains, self.criteria])
        self.states, self.nodes, self.combos = {}, {}, {}

    def fail(self, kind):
        if kind not in self.flags:
            raise Failed(kind)

    def literals(self, name, v):
        c = self.c[name]
        if c["incl"]:
            return [t for n, t in sorted((n & 0xffffffff, t) for n, t in c["vals"] if n & v)]
        return [t for n, t in c["vals"] if n == v]

    def declare(self, name, v):
        c = self.c[name]
        if name in self.nodes:
            return self.change(name, v)
        lits = [t for _, t in c["vals"]] + (["none"] if c["incl"] else [])
        n = Node("Criterion", name, [Node("CriterionState", t) for t in sorted(lits)], Type="Inclusive" if c["incl"] else "Exclusive")
        self.nodes[name] = n
        self.criteria.kids.append(n)
        self.enter(n, name, v)

    def enter(self, n, name, v):
        n.use += 1
        self.states[name] = v
        for t in self.literals(name, v):
            next(k for k in n.kids if k.name == t).use += 1

    def change(self, name, v):
        if name not in self.nodes:
            return self.fail("unknown")
        if v is None:
            return self.fail("incoherent")
        self.enter(self.nodes[name], name, v)
        self.criteria.use += 1
        self.root.use += 1

    def apply(self, d, c):
        if not self.nodes or (d, c) not in self.confs:
            raise Failed("application")
        n = self.confs[d, c]
        for x in (n, n.up, self.domains, self.root):
            x.use += 1
        root, st = n.kids
        st.use += 1
        key = tuple(tuple(self.literals(k, self.states[k])) for k in self.nodes)
        combos = self.combos.setdefault((d, c), {})
        if key not in combos:
            kids = [Node("Criterion", k, [Node("CriterionState", t) for t in lits], Type=self.nodes[k].at["Type"])
                    for k, lits in zip(self.nodes, key)]
            for k in kids:
                k.loose = True
            combos[key] = Node("Criteria", "CriterionRoot", kids)
            st.kids.append(combos[key])
        for x in [combos[key]] + list(combos[key].below()):
            x.use += 1
        if root.kids and not use_rule(root.kids[0], self.c, self.states):
            return self.fail("ineligible")
        root.use += 1


def same_number(text, cov):
    m = re.fullmatch(r"(\d+)%", text or "")
    return m and abs(int(m.group(1)) - 100 * cov) <= fractions.Fraction(1, 2) + fractions.Fraction(1, 10**9)


def compare_xml(n, e, where=""):
    where += "/" + n.name
    expect(e.tag == n.tag, "%s: element %s, expected %s", where, e.tag, n.tag)
    at = dict(e.attrib)
    expect(at.pop("Name", None) == n.name, "%s: named %s", where, e.get("Name"))
    use = at.pop("NbUse", "?")
    # (the count of a criterion within a recorded state starts at one)
    expect(use == str(n.use) or n.loose and use == str(n.use + 1), "%s (%s): used %s times, expected %d", where, n.tag, use, n.use)
    expect(same_number(at.get("Coverage"), n.coverage()), "%s (%s): coverage %s, expected %.3f", where, n.tag, at.get("Coverage"), n.coverage())
    at.pop("Coverage")
    expect(at == n.at, "%s: attributes %s, expected %s", where, at, n.at)
    expect([k.get("Name") for k in e] == [k.name for k in n.kids], "%s: contains %s, expected %s", where,
           [k.get("Name") for k in e], [k.name for k in n.kids])
    for k, x in zip(n.kids, e):
        compare_xml(k, x, where)


def raw_lines(n, depth=0, cov=True):
    yield depth, n, cov
    for k in n.kids:
        yield from raw_lines(k, depth + 1, cov and n.tag != "CriterionStates" and k.tag != "CriterionStates")


def compare_raw(n, text):
    lines = text.split("\n")
    want = list(raw_lines(n))
    expect(lines[-1] == "" and len(lines) == len(want) + 1, "%d lines, expected %d", len(lines) - 1, len(want))
    for line, (depth, x, cov) in zip(lines, want):
        m = re.fullmatch(r"((?:\|   )*)\|-- (.*) has been used (\d+) time(?: \((.*) coverage\))?", line)
        expect(m, "unexpected line %r", line)
        expect(len(m.group(1)) == 4 * depth and m.group(2) == x.name, "line %r, expected %s at depth %d", line, x.name, depth)
        expect(int(m.group(3)) == x.use or x.loose and int(m.group(3)) == x.use + 1, "line %r: expected %d uses", line, x.use)
        if cov and x.coverage():
            expect(same_number(m.group(4), x.coverage()), "line %r: expected coverage %.3f", line, x.coverage())
        else:
            expect(m.group(4) in (None, "0%"), "line %r: coverage not expected", line)


# ---------------------------------------------------------------- running the tool
CODE = []


class Alarm(Exception):
    pass


def ring(*_):
    raise Alarm()


def in_process(args, stdin):
    """Runs coverage.py's program. (exit code, standard output)"""
    if not CODE:
        with open(os.path.join(TOOLS, "coverage.py"), encoding="utf-8") as f:
            CODE.append(compile(f.read(), "coverage.py", "exec"))
        logging.getLogger().addHandler(logging.NullHandler())
    keep = sys.argv, sys.stdin, sys.stdout, sys.stderr
    out = io.StringIO()
    old = signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, 30)
    sys.argv, sys.stdin, sys.stdout, sys.stderr = ["coverage.py"] + args, io.StringIO(stdin), out, io.StringIO()
    try:
        try:
            exec(CODE[0], {"__name__": "__main__", "__file__": "coverage.py"})
            code = 0
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        except Alarm:
            code = "no answer after 30 s"
        except Exception as e:
            code = "exception %s: %s" % (type(e).__name__, e)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        sys.argv, sys.stdin, sys.stdout, sys.stderr = keep
    return code, out.getvalue()


class C26(Check):
    pid = "C26"
    technique = ("model-based property testing: generated criteria, rules and histories run by the framework itself; its log and settings are given to the "
                 "coverage tools, whose whole report is compared with counts taken from a reference model of the history")
    note = ("Logs as files of any number, with prefixes and foreign lines, from the start or with what precedes it, with a second start; lines that do not "
            "fit the settings are appended with and without the options that ignore them. XML and raw reports; aplog2coverage.sh is run with a "
            "stand-in for xsltproc, which is not installed: the style sheet is not covered.")
    rule = "a configuration with a rule was applied twice or more and two configurations were applied"
    quick, thorough = 12000, 150000
    shards = 8

    # ------------------------------------------------------------ generation
    def gen(self, src, tier):
        profile = {"weights": WEIGHTS, "doms": (1, 4), "confs": (1, 4), "file": 1.0, "n": (3, 30, 14), "modal": True, "rec": 0.0, "maxleaves": 4}
        case, _ = pfdom.gen_world(src, profile, tier)
        for c in case["crits"]:
            c["vals"] = [[n, t.replace("|", "_")] for n, t in c["vals"]]
            c["state"] = self.known(src, c, c["state"])
        w = pfdom.World(case["st"], case["crits"])
        case = pfdom.gen_history(src, profile, tier, (case, w))
        for o in case["ops"]:
            if o["op"] == "crit":
                c = next(c for c in case["crits"] if c["name"] == o["k"])
                o["v"] = self.known(src, c, o["v"])
        case["again"] = src.below(len(case["ops"]) - case["setup"] + 1) if src.coin(0.2) else -1
        case["settings"] = src.choice(["file", "export"])
        case["whole"] = src.coin(0.3)
        case["prefix"] = src.choice(PREFIX)
        case["noise"] = [[src.below(1 << 16), src.choice(NOISE)] for _ in range(src.int(0, 4))]
        case["how"] = src.weighted([(40, "in"), (1, "out"), (1, "sh")])
        case["raw"] = src.coin(0.15)
        case["flags"] = [f for f in FLAGS if src.coin(0.25)]
        case["extra"] = [self.gen_extra(src, case) for _ in range(src.int(1, 3))] if src.coin(0.2) else []
        case["files"] = sorted(src.below(1000) for _ in range(src.int(0, 3)))
        case["sh"] = src.below(4)
        return case

    def known(self, src, c, v):
        if c["incl"]:
            return v & ~(1 << 9)
        return v if v in [n for n, _ in c["vals"]] else src.choice(c["vals"])[0]

    def gen_extra(self, src, case):
        k = src.choice(["app", "app", "crit", "none", "who"])
        if k == "app":
            return ["app", src.below(1 << 16)]
        if k == "who":
            return src.choice([["app?", "D0", "c9"], ["app?", "D9", "c0"]])
        c = src.choice(case["crits"])
        if k == "none":
            return ["crit", c["name"], None if not c["incl"] else 0]
        if src.coin(0.4):
            return ["crit", "K9", 1]
        return ["crit", c["name"], self.known(src, c, pfdom.gen_state(src, c))]

    # ------------------------------------------------------------ running
    def history(self, ctx, case, ops, slot, tags):
        """Runs one life of the framework; what happens, and its log before and from the start."""
        r = pfdom.Runner(ctx, case, slot, tuning_on=False)
        w = r.w
        events = [("decl", c["name"], c["state"]) for c in case["crits"]] + [("app", d, c) for d, c in w.applied]
        before = [("crit", c["name"], c["state"]) for c in case["crits"] if c["state"]]
        for n, o in ops:
            w.applied = []
            old = dict(w.states)
            r.step(n, o)
            if o["op"] == "crit" and old[o["k"]] != o["v"]:
                events.append(("crit", o["k"], o["v"]))
                tags["change"] = tags.get("change", 0) + 1
            for d, c in w.applied:
                events.append(("app", d, c))
                tags["applied"] = tags.get("applied", 0) + 1
        lines = [x for m in ctx.run([["log", slot]])[0][1:] for x in m.split("\n")]
        start = next(i for i, x in enumerate(lines) if "Loading {" in x)
        return r, before, events, lines[:start], lines[start:]

    def run(self, case, ctx):
        tags = {}
        ops = list(enumerate(case["ops"]))[case["setup"]:]
        r, before, events, first, lines = self.history(ctx, case, ops, "a", tags)
        if case["whole"]:
            events, lines = before + events, first + lines
        doms = r.w.doms
        if case["settings"] == "export":
            a = ctx.run([["cmd", "a", "getDomainsWithSettingsXML"]])[0]
            expect(a[0] == "1", "exporting: %s", a)
            doc = a[1]
        else:
            doc = pfdom.domains_xml(r.w)
        if case["again"] >= 0:
            _, b2, e2, f2, l2 = self.history(ctx, case, ops[:case["again"]], "b", tags)
            events, lines = events + b2 + e2, lines + f2 + l2
            tags["second-start"] = 1
        apps = [(d.name, c.name) for d in doms for c in d.confs]
        for x in case["extra"]:
            if x[0] == "app" and apps:
                x = ["app?"] + list(apps[x[1] % len(apps)])
            if x[0] == "app?":
                events.append(("app", x[1], x[2]))
                lines.append("I         Applying configuration '%s' from domain '%s'" % (x[2], x[1]))
            elif x[0] == "crit":
                c = next((c for c in case["crits"] if c["name"] == x[1]), None)
                v = x[2]
                lits = ["x"] if c is None else [] if v is None else [t for n, t in sorted((n & 0xffffffff, t) for n, t in c["vals"] if (
                    n & v if c["incl"] else n & 0xffffffff == v & 0xffffffff))]
                events.append(("crit", x[1], v))
                lines.append("I Selection criterion changed event: Criterion name: %s, current state: %s" % (x[1], "|".join(lits) or "<none>"))
        flags = set(case["flags"])
        if case["whole"] and first:
            flags.add("unknown")
        rep = Report(doms, case["crits"], flags, case["settings"] == "export")
        try:
            failed = None
            for e in events:
                {"decl": rep.declare, "crit": rep.change, "app": rep.apply}[e[0]](*e[1:])
        except Failed as e:
            failed = str(e)
            tags["failed-" + failed] = 1
        lines = [case["prefix"] + x for x in lines]
        for at, x in case["noise"]:
            lines.insert(at % (len(lines) + 1), x)
        self.judge(ctx, case, rep, failed, doc, lines, flags, tags)
        tags["how-" + case["how"]] = 1
        uses = [n.use for (d, c), n in rep.confs.items() if n.kids[0].kids]
        return {"nontrivial": failed is None and any(u > 1 for u in uses) and sum(1 for n in rep.confs.values() if n.use) > 1, "tags": tags}

    def judge(self, ctx, case, rep, failed, doc, lines, flags, tags):
        dom = ctx.write("coverage-domains.xml", doc)
        opts = [FLAGS[f] for f in sorted(flags)]
        raw = case["raw"] and case["how"] != "sh"
        if raw:
            opts.append("--raw")
            tags["raw"] = 1
        elif case["sh"] & 1 and case["how"] != "sh":
            opts.append("--xml")
        text = "".join(x + "\n" for x in lines)
        out = os.path.join(ctx.dir, "report.xml")
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8")
        if case["how"] == "sh":
            code, got = self.shell(ctx, case, dom, lines, flags, out, env)
        elif case["how"] == "out":
            cmd = [os.path.join(TOOLS, "coverage.py")] + opts + ["-o", out, dom]
            q = subprocess.run(["python3"] + cmd, input=text.encode(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, timeout=120)
            code = q.returncode
            with open(out, encoding="utf-8") as f:
                got = f.read()
            os.unlink(out)
        else:
            if case["sh"] & 2:
                code, got = in_process(opts + [dom], text)
            else:
                code, got = in_process(opts + [dom, ctx.write("coverage.log", text)], "")
        if failed:
            expect(code not in (0, None) and not isinstance(code, str), "log with an error (%s): exit code %s", failed, code)
            expect(not got.strip(), "log with an error (%s): reported %r", failed, got[:500])
            return
        expect(code == 0, "coverage: %s", code)
        if raw:
            compare_raw(rep.root, got)
        else:
            try:
                e = ET.fromstring(got)
            except ET.ParseError as x:
                raise Violation("the report is not XML (%s): %r" % (x, got[:300]))
            compare_xml(rep.root, e)

    def shell(self, ctx, case, dom, lines, flags, out, env):
        bin_ = os.path.join(ctx.dir, "bin")
        os.makedirs(bin_, exist_ok=True)
        stub = os.path.join(bin_, "xsltproc")
        with open(stub, "w") as f:
            f.write('#!/bin/sh\n[ "$1" = --output ] && [ "$4" = - ] && [ -f "$3" ] && exec cat > "$2"\nexit 9\n')
        os.chmod(stub, 0o755)
        env["PATH"] = bin_ + ":" + env["PATH"]
        # oldest lines in the file of the highest number
        logs = os.path.join(ctx.dir, "logs")
        os.makedirs(logs, exist_ok=True)
        cuts = [0] + sorted(min(len(lines), f * len(lines) // 1000) for f in case["files"]) + [len(lines)]
        names = []
        for i in range(len(cuts) - 1):
            k = len(cuts) - 2 - i
            # (numbers of one and two digits)
            p = os.path.join(logs, "aplog" + (".%d" % (k * 7) if k else ""))
            with open(p, "w", encoding="utf-8") as f:
                f.write("".join("pfw1 %s\n" % x for x in lines[cuts[i]:cuts[i + 1]]) + "pfw2 I Applying configuration 'x' from domain 'y'\n")
            names.append(p)
        if case["sh"] & 1:
            names.reverse()
        sh = os.path.join(TOOLS, "aplog2coverage.sh")
        force = len(flags) == 3
        opts = [] if force else [FLAGS[f] for f in sorted(flags)]
        if case["sh"] & 2:
            cmd = ["--domains", dom, "--regexp", "pfw1 ", "--output", out] + (["--force"] if force else [])
            cmd += [x for o in opts for x in ("--parser_option", o)]
        else:
            cmd = ["-d", dom, "-e", "pfw1 ", "-o", out] + (["-f"] if force else []) + (["-p", " ".join(opts)] if opts else [])
        cmd = names + cmd if len(names) & 1 else cmd + names
        try:
            q = subprocess.run(["bash", sh] + cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=60)
        except subprocess.TimeoutExpired:
            return "aplog2coverage.sh does not end", ""
        got = ""
        if os.path.exists(out):
            with open(out, encoding="utf-8") as f:
                got = f.read()
            os.unlink(out)
        for p in names:
            os.unlink(p)
        if q.returncode and not isinstance(q.returncode, str):
            return q.returncode, got
        return q.returncode, got


CHECK = C26
