"""C23: the settings generator compiles its language into the equivalent settings."""
import atexit
import json
import os
import re
import shlex
import subprocess
import xml.dom.minidom
import drv
import pfdom
import pfstruct as ps
from engine import VERIF
from pf import *

TOOLS = "/repo/tools/xmlGenerator"
DOMS = ["Codec", "Flow", "a.b", "x-1", "IHF", "sequenceAware", "D\u00e9", "On", "d0"]
CONFS = ["On", "Off", "Bind", "A", "A.B", "B", "", "conf 3", "ANY", "\u2714"]
HEAD = {"dg": ["domainGroup", "supDomain"], "d": ["domain"], "c": ["conf"], "comp": ["component"]}
FAULTS = ["indent", "space", "unknown", "child", "params", "badpath", "badvalue", "badrule", "dupdomain", "dupconf", "conflict",
          "critdup", "critline", "operator"]
# refused before anything is generated
EARLY = ("indent", "space", "unknown", "child", "params", "critdup", "critline", "operator")


class Jython:
    """The generator's tools, kept running."""

    def __init__(self, ctx):
        env = dict(os.environ)
        env.update({k: v + ":symbolize=0" for k, v in drv.SAN.items()})
        env.update(PATH=ctx.built.bin + ":" + env.get("PATH", "/usr/bin:/bin"), LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", TMPDIR=ctx.dir,
                   JAVA_TOOL_OPTIONS="-Xmx400m -XX:+UseSerialGC -XX:TieredStopAtLevel=1 -Dpython.cachedir.skip=true -Djava.io.tmpdir=" + ctx.dir)
        self.err = open(os.path.join(ctx.dir, "jython.err"), "w")
        self.proc = subprocess.Popen(
            ["jython", "-B", os.path.join(VERIF, "pbt", "jygen.py"), TOOLS],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env, cwd=ctx.dir)
        atexit.register(self.close)

    def run(self, q):
        try:
            self.proc.stdin.write((json.dumps(q) + "\n").encode())
            self.proc.stdin.flush()
            a = self.proc.stdout.readline()
        except OSError:
            a = b""
        if not a:
            self.err.flush()
            txt = open(self.err.name).read()
            if "Traceback" in txt and "import" in txt:
                raise Violation("the generator's modules cannot be loaded: " + txt[-1500:])
            raise drv.HarnessError("jython ended: " + txt[-1500:])
        return int(a)

    def close(self):
        if self.proc.poll() is None:
            try:
                self.proc.stdin.close()
                self.proc.wait(10)
            except Exception:
                self.proc.kill()
                self.proc.wait()


# ------------------------------------------------------------------ meaning of scripts
def rules_of(kids):
    return [k for k in kids if k[0] in ("r", "o")]


def meaning(scripts):
    """[{"name","seq","confs":[(name, rule, [(path, value)])]}] of the scripts in turn."""
    out = []
    for s in scripts:
        for n in s:
            mean_domain(n, [], False, [], [], out)
    return out


def mean_domain(n, names, seq, types, rules, out):
    kind, name, aware, kids = n
    names, seq, rules, types = names + [name], seq or aware, rules + rules_of(kids), list(types)
    d = {"name": ".".join(names), "seq": seq, "confs": []}
    if kind == "d":
        out.append(d)
    for k in kids:
        if k[0] in ("d", "dg"):
            mean_domain(k, names, seq, types, rules, out)
        elif k[0] in ("cg", "c"):
            mean_conf(k, [], types, rules, d["confs"])


def mean_conf(n, names, types, rules, out):
    name, kids = n[-2], n[-1]
    own = rules_of(kids)
    rules = rules + [r for t, rs in types if t == name for r in rs] + own
    names = names + [name]
    if n[0] == "cg":
        types.append((name, own))
        inner = list(types)
        for k in kids:
            if k[0] in ("cg", "c"):
                mean_conf(k, names, inner, rules, out)
    else:
        out.append((".".join(names), ["All", [mean_rule(r) for r in rules]], [x for k in kids for x in mean_path(k, "")]))


def mean_rule(r):
    return ["C"] + r[1:] if r[0] == "r" else [r[1].capitalize(), [mean_rule(k) for k in r[2]]]


def mean_path(n, base):
    p = (base + "/" if base else "") + n[1]
    if n[0] == "p":
        return [(p, n[2])]
    return [x for k in n[2] for x in mean_path(k, p)] if n[0] == "comp" else []


def norm(r, crits):
    """A rule up to what does not matter: order, repetitions, and compounds within compounds of the same type."""
    if r[0] == "C":
        c = crits.get(r[1])
        v = pfdom.crit_value(c, r[3]) if c else None
        return ("C", r[1], r[2], r[3] if v is None else pfdom.canon_value(c, v))
    kids = set()
    for k in r[1]:
        k = norm(k, crits)
        kids |= set(k[1]) if k[0] == r[0] else {k}
    if len(kids) == 1:
        k = next(iter(kids))
        return k if k[0] != "C" else ("All", (k,))
    return (r[0], tuple(sorted(kids, key=repr)))


def flat(r, crits):
    """norm, with single criteria out of their compounds at every level."""
    if r[0] == "C":
        return norm(r, crits)
    kids = set()
    for k in r[1]:
        k = flat(k, crits)
        kids |= set(k[1]) if k[0] == r[0] else {k}
    if len(kids) == 1:
        return next(iter(kids))
    return (r[0], tuple(sorted(kids, key=repr)))


def parse_rule(t):
    toks = re.findall(r"[{},]|[^{},]+", t)
    pos = [0]

    def one():
        w = toks[pos[0]].strip()
        pos[0] += 1
        if w in ("All", "Any") and pos[0] < len(toks) and toks[pos[0]] == "{":
            pos[0] += 1
            kids = []
            while toks[pos[0]] != "}":
                if toks[pos[0]] == "," or not toks[pos[0]].strip():
                    pos[0] += 1
                    continue
                kids.append(one())
            pos[0] += 1
            return [w, kids]
        return ["C"] + w.split(" ")
    return one()


# ------------------------------------------------------------------ texts
class Lines:
    """Text of a script; fmt is a list of small numbers that decide the formatting."""

    def __init__(self, fmt):
        self.fmt, self.n = fmt or [0], 0
        self.lines = []         # (indentation, text, kind)

    def pick(self, seq):
        self.n += 1
        return seq[self.fmt[self.n % len(self.fmt)] % len(seq)]

    def junk(self, ind):
        x = self.pick([None] * 7 + ["# conf: comment", "", "\t", "#", "  ", "\t# a = b"])
        if x is not None:
            self.lines.append((0 if not x.strip() else ind, x, "junk", None))

    def add(self, ind, n):
        k = n[0]
        kids = n[-1] if k not in ("p", "r") else []
        if k == "p":
            t = n[1] + self.pick([" = ", "=", " =", "= ", "  =\t "]) + n[2]
        elif k == "r":
            t = self.pick([" ", " ", "  "]).join([n[1], n[2]]) + self.pick([" ", " ", "   "]) + n[3]
        elif k == "o":
            t = n[1]
        else:
            t = (n[1] if k == "cg" else self.pick(HEAD[k])) + self.pick([": ", ":", " : ", ":  "]) + (n[2] if k == "cg" else n[1])
            if k in ("d", "dg") and n[2]:
                t += self.pick([" ", "  "]) + "sequenceAware"
        self.junk(ind)
        self.lines.append((ind, t + self.pick(["", "", "", " ", "\t"]), k, n))
        for c in kids:
            self.add(ind + 1, c)

    def script(self, nodes):
        for n in nodes:
            self.add(0, n)
        return self

    def text(self):
        return "".join("\t" * i + t + "\n" for i, t, k, n in self.lines)


CHILDREN = {"root": "d dg", "dg": "dg d cg r o", "d": "c cg r o", "cg": "r o cg c comp", "c": "r o p comp", "comp": "p comp",
            "o": "r o", "p": "", "r": ""}


def parse(lines):
    """(tree, None), or (None, number of the first line in error), of lines that are each correct."""
    root = ["root", []]
    stack, prev = [(root, "root")], 0
    for i, (ind, t, k, n) in enumerate(lines):
        if k == "junk":
            continue
        if ind + 1 > prev + 1:
            return None, i + 1
        prev = ind + 1
        del stack[ind + 1:]
        up, uk = stack[-1]
        if k not in CHILDREN[uk].split():
            return None, i + 1
        n = n[:] if k in ("p", "r") else n[:-1] + [[]]
        up[-1].append(n)
        stack.append((n, k))
    return root[1], None


def fuzz(lines, muts):
    """Lines moved about."""
    L = list(lines)
    for k, a, b in muts:
        i, j = a % len(L), b % len(L)
        if k == "del" and len(L) > 1:
            del L[i]
        elif k == "dup":
            L.insert(j, L[i])
        elif k == "swap":
            L[i], L[j] = L[j], L[i]
        elif k == "in":
            L[i] = (L[i][0] + 1,) + L[i][1:]
        elif k == "out":
            L[i] = (max(0, L[i][0] - 1),) + L[i][1:]
        elif k == "block":
            # a line with what is below it, elsewhere
            e = i + 1
            while e < len(L) and (L[e][0] > L[i][0] or L[e][2] == "junk"):
                e += 1
            blk = L[i:e]
            if b % 3:
                del L[i:e]
            j = b % (len(L) + 1)
            d = (L[j][0] if j < len(L) else 0) - blk[0][0]
            L[j:j] = [(max(0, x[0] + d),) + x[1:] for x in blk]
    return L


def doubtful(n, above="root"):
    """Whether a construct has no documented meaning."""
    return above == "cg" and n[0] == "comp" or above == "dg" and n[0] == "cg" and has_conf(n) or \
        n[0] not in ("p", "r") and any(doubtful(k, n[0]) for k in n[-1])


def has_conf(n):
    return n[0] == "c" or n[0] == "cg" and any(has_conf(k) for k in n[-1])


class C23(Check):
    pid = "C23"
    technique = ("property-based testing: generated programs of the settings language against a compositional reference semantics, the generated "
                 "settings loaded into a fresh instance and compared; generated errors")
    note = ("Scripts nest domain groups, domains, configuration groups and types, rules, components and values over generated structures; the tools run "
            "under Jython (their language is Python 2) with the native connector under ASan/UBSan; the preprocessing by m4 is not part of the check. "
            "Configuration types are declared before what they specialise.")
    rule = "at least two configurations, with rules inherited or composed, and values set"
    quick, thorough = 3000, 60000
    limit = 60
    shrink_s = 25

    # ------------------------------------------------------------ generation
    def gen(self, src, tier):
        st = ps.gen_struct(src, ps.GenOpts(rec=0.2, maxleaves=14, desc=False))
        crits = []
        for i in range(src.int(1, 3)):
            names = src.sample(["Red", "Green", "Blue", "On", "Off", "v_1", "v.2", "Is"], src.int(1, 5))
            crits.append({"name": src.choice(["Colors", "ANYone", "ALL", "S.w"]) if src.coin(0.2) and i == 0 else "K%d" % i,
                          "incl": src.coin(0.5), "vals": names})
        case = {"st": st, "crits": crits}
        root = ps.instantiate(st)
        vals = ps.Values(root)
        pool = src.shuffle(root.leaves())
        used = set()
        scripts = []
        for i in range(src.int(1, 3)):
            scripts.append(src.list(1 if not i else 0, 3, lambda j: self.gen_domain(src, crits, pool, vals, [], used, 0, []), avg=1.6))
        case["scripts"] = [s for s in scripts if s]
        case["fmt"] = [src.below(60) for _ in range(src.choice([1, 7, 29]))]
        case["split"] = src.below(len(case["scripts"])) if src.coin(0.3) else 0
        case["via"] = src.choice(["initial", "domains"])
        case["abs"] = src.coin(0.5)
        case["validate"] = src.coin(0.25)
        if case["split"] and not all(d["confs"] and d["confs"][0][2] and all(re.fullmatch(r"[A-Za-z_][A-Za-z_0-9.-]*", n) for n in [
                d["name"]] + [c[0] for c in d["confs"]]) for d in meaning(case["scripts"])):
            # the schemas have no domains without configurations or elements, and restrict names
            case["validate"] = False
        case["verbose"] = src.coin(0.15)
        case["tuning"] = src.coin(0.5)
        case["schemas"] = src.coin(0.6)
        case["pfw"] = src.coin(0.3)
        if src.coin(0.25):
            case["fuzz"] = src.list(1, 4, lambda i: [src.choice(["del", "dup", "swap", "in", "out", "block", "block"]), src.below(500), src.below(500)],
                                    avg=1.6)
            case["split"] = 0
        elif src.coin(0.35):
            case["fault"] = [src.choice(FAULTS), src.below(1000), src.below(1000), src.below(1000)]
            case["split"] = 0
        return case

    def gen_rules(self, src, crits, p):
        return [self.gen_rule(src, crits, 3) for _ in range(src.int(1, 2))] if src.coin(p) else []

    def gen_rule(self, src, crits, depth):
        if depth and src.coin(0.3):
            return ["o", src.choice(["ANY", "ALL"]), src.list(0, 3, lambda i: self.gen_rule(src, crits, depth - 1), avg=1.7)]
        c = src.choice(crits)
        verb = src.choice(["Is", "IsNot", "Includes", "Excludes"] if c["incl"] else ["Is", "IsNot"])
        v = src.choice(c["vals"])
        if c["incl"] and src.coin(0.2):
            v = "|".join(src.sample(c["vals"], 2))
        return ["r", c["name"], verb, v]

    def gen_domain(self, src, crits, pool, vals, names, used, depth, types):
        group = depth < 2 and src.coin(0.3)
        name = src.choice(DOMS)
        full = ".".join(names + [name])
        i = 0
        while full in used or any(u.startswith(full + ".") or full.startswith(u + ".") for u in used if not group):
            i += 1
            name = "%s%d" % (name, i)
            full = ".".join(names + [name])
        kids = self.gen_rules(src, crits, 0.4)
        types = list(types)
        for _ in range(src.int(0, 2) if src.coin(0.4) else 0):
            t = src.choice(CONFS)
            types.append(t)
            kids.append(["cg", src.choice(["confType", "confType", "supConf"]), t, self.gen_rules(src, crits, 0.8)])
        if group:
            kids += src.list(0, 3, lambda j: self.gen_domain(src, crits, pool, vals, names + [name], used, depth + 1, types), avg=1.8)
        else:
            used.add(full)
            els = [pool.pop() for _ in range(min(len(pool), src.weighted([(1, 0), (4, src.int(1, 3)), (1, 5)])))]
            seen = set()
            kids += src.list(0, 4, lambda j: self.gen_conf(src, crits, els, vals, [], seen, 0, types), avg=2.4)
        if src.coin(0.3) and kids:
            # rules may come after what they apply to
            k = src.below(len(kids))
            kids = [x for x in kids if x[0] not in ("r", "o")] + [x for x in kids if x[0] in ("r", "o")] if k % 2 else kids
        return ["dg" if group else "d", name, src.coin(0.3), kids]

    def gen_conf(self, src, crits, els, vals, names, seen, depth, types):
        group = depth < 2 and src.coin(0.3)
        name = src.choice(types) if types and src.coin(0.5) else src.choice(CONFS)
        rules = self.gen_rules(src, crits, 0.6)
        if group:
            kids = rules + src.list(0, 3, lambda j: self.gen_conf(src, crits, els, vals, names + [name], seen, depth + 1, types), avg=1.5)
            if src.coin(0.3):
                kids.insert(0, ["cg", "confType", src.choice(CONFS), self.gen_rules(src, crits, 0.8)])
            return ["cg", src.choice(["confGroup", "supConf", "confGroup"]), name, kids]
        full, i = ".".join(names + [name]), 0
        while full in seen or not full.strip():
            i += 1
            name = "%s%d" % (name, i)
            full = ".".join(names + [name])
        seen.add(full)
        order = src.shuffle(els)
        paths = self.fold(src, [(l.path, self.gen_value(src, l, vals)) for l in order], 3)
        kids = rules + paths
        if src.coin(0.2):
            kids = paths + rules
        return ["c", name, kids]

    def fold(self, src, items, depth):
        """Values as lines, some of them below components; the order of values is kept."""
        out, i = [], 0
        while i < len(items):
            p, v = items[i]
            cuts = [m.start() for m in re.finditer("/", p) if m.start() > 0]
            if depth and cuts and src.coin(0.4):
                base = p[:src.choice(cuts)]
                j = i
                while j < len(items) and items[j][0].startswith(base + "/"):
                    j += 1
                out.append(["comp", base, self.fold(src, [(q[len(base) + 1:], w) for q, w in items[i:j]], depth - 1)])
                i = j
            else:
                out.append(["p", p, v])
                i += 1
        return out

    def gen_value(self, src, l, vals):
        if l.kind == "str":
            n = src.int(0, min(14, l.e["maxlen"]))
            t = trim("".join(src.choice("abXY 01_,/<&'\"|=-#:\t\\{}%$`!\u00e9\u2714") for _ in range(n)))
            while len(t.encode()) > l.e["maxlen"]:
                t = t[:-1].rstrip()
            return trim(t)
        t = trim(ps.gen_text(src, l, False, 0.0)).replace("\n", " ")
        if l.arr and len([x for x in re.split("[%s,]+" % ps.WS, t) if x]) != l.arr or vals.encode_all(l, t, False) is None:
            t = vals.text_of(l, [ps.gen_stored(src, l.e) for _ in range(max(1, l.arr))]) if l.kind != "bit" else "0"
        return t

    # ------------------------------------------------------------ running
    def jython(self, ctx):
        if "jython" not in ctx.extra:
            ctx.extra["jython"] = Jython(ctx)
        return ctx.extra["jython"]

    def tool(self, ctx, tool, args, inp=None, tag=""):
        out, err = os.path.join(ctx.dir, "gen.out"), os.path.join(ctx.dir, "gen.err")
        rc = self.jython(ctx).run({"tool": tool, "args": args, "out": out, "err": err, "in": inp})
        o, e = open(out, "rb").read(), open(err, "rb").read().decode("utf-8", "replace")
        m = re.search(r"^==\d+==ERROR: .*|^.*runtime error: .*", e, re.M)
        if m:
            raise Violation("the generator's connector crashes: " + drv.summarize(e))
        left = [f for f in os.listdir(ctx.dir) if f.startswith("TMPdomainGenerator")]
        for f in left:
            os.remove(os.path.join(ctx.dir, f))
        expect(not left or rc != 0, "the generator left its temporary file %s", left)
        return rc, o, e

    def crit_text(self, case):
        x = "".join("%sclusiveCriterion %s%s : %s\n" % ("In" if c["incl"] else "Ex", " " if i else "", c["name"], " ".join(c["vals"]))
                    for i, c in enumerate(case["crits"]))
        f = case.get("fault")
        if f and f[0] == "critdup":
            c = case["crits"][f[1] % len(case["crits"])]
            x = x.replace("%s : " % c["name"], "%s : %s " % (c["name"], c["vals"][f[2] % len(c["vals"])]), 1)
        if f and f[0] == "critline":
            x += ["Criterion K : a b\n", "InclusiveCriterion K9 a b\n", "bad\n"][f[1] % 3]
        return x

    def run(self, case, ctx):
        self.st = st = case["st"]
        crits = [{"name": c["name"], "incl": c["incl"], "vals": [[1 << i if c["incl"] else i, v] for i, v in enumerate(c["vals"])], "state": None}
                 for c in case["crits"]]
        cd = {c["name"]: c for c in crits}
        sp = ctx.write("struct.xml", ps.struct_xml(st))
        conf = ctx.write("top.xml", ps.config_xml(st, ctx.built, sp if case["abs"] else "struct.xml", None, case["tuning"],
                                                  port=5999 if case["validate"] else None))
        crit = ctx.write("criteria.txt", self.crit_text(case))
        fault = case.get("fault")
        scripts = case["scripts"]
        texts, want_err, scripts = self.spoil(case, scripts) if fault else ([Lines(case["fmt"]).script(s).text() for s in scripts], None, scripts)
        if case.get("fuzz"):
            ls = [Lines(case["fmt"]).script(s) for s in scripts]
            ls[-1].lines = fuzz(ls[-1].lines, case["fuzz"])
            texts = [x.text() for x in ls]
            trees = [parse(x.lines) for x in ls]
        edds = [ctx.write("s%d.pfw" % i, t) for i, t in enumerate(texts)]
        base = ["--toplevel-config", conf, "--criteria", crit]
        if case["schemas"] or case["validate"]:
            base += ["--schemas-dir", "/repo/schemas"]
        if case["validate"]:
            base.append("--validate")
        if case["verbose"]:
            base.append("--verbose")
        tags = set()
        k = case["split"]
        if k and case["validate"]:
            # the schemas have no room for a document without a domain or a domain without a configuration
            first = meaning(scripts[:k])
            if not first or any(not d["confs"] for d in first):
                k = 0
        if k:
            rc, out, err = self.tool(ctx, "domain", base + ["--add-edds"] + edds[:k])
            expect(rc == 0, "generation of the first %d scripts fails (%d): %s", k, rc, err[-600:])
            if case["via"] == "initial":
                base += ["--initial-settings", ctx.write("initial.xml", out)]
            else:
                doc = xml.dom.minidom.parseString(out)
                files = [ctx.write("dom%d.xml" % i, '<?xml version="1.0" encoding="UTF-8"?>\n' + d.toxml()) for i, d in enumerate(
                    doc.documentElement.getElementsByTagName("ConfigurableDomain"))]
                if files:
                    base += ["--add-domains"] + files
            tags.add("via " + case["via"])
        args = base + (["--add-edds"] + edds[k:] if edds[k:] else [])
        rc, out, err = self.tool(ctx, "domain", args)
        nerr = len(re.findall("^Failed to executing command", err, re.M))
        if case.get("fuzz"):
            done = self.judge_fuzz(trees, rc, out, err, nerr)
            if done:
                return done
            scripts = [t for t, n in trees]
            tags.add("fuzz valid")
        if fault:
            return self.judge_fault(case, fault, rc, out, err, want_err, nerr, ctx, cd, crits, scripts)
        expect(rc == 0 and nerr == 0, "the script is refused (exit code %d): %s", rc, err[-800:])
        want = meaning(scripts)
        self.load(ctx, case, crits, out)
        self.compare(ctx, want, cd, "the generated settings")
        if case["pfw"]:
            self.commands(ctx, case, crits, cd, edds, want)
            tags.add("pfw")
        nconf = sum(len(d["confs"]) for d in want)
        nset = sum(len(c[2]) for d in want for c in d["confs"])
        return {"nontrivial": nconf > 1 and nset and any(len(c[1][1]) > 1 for d in want for c in d["confs"]), "tags": tags | {"valid"}}

    def load(self, ctx, case, crits, out):
        q = boot(ctx, case["st"], "a", crits, domains=out, tuning_on=False)
        r = ctx.run(q)
        must(r[:-1], "loading")
        expect(r[-1][0] == "1", "the generated settings are not loaded: %s", r[-1])

    def compare(self, ctx, want, cd, what, skip=()):
        s, root = "a", ps.Values(ps.instantiate(self.st))
        got = [x for x in ctx.run([["cmd", s, "listDomains"]])[0][1].split("\n") if x]
        exp = [d["name"] + (" [sequence aware]" if d["seq"] else "") for d in want]
        expect(got == exp, "%s: domains are %r, expected %r", what, got, exp)
        for d in want:
            q = [["cmd", s, "listConfigurations", d["name"]], ["cmd", s, "listDomainElements", d["name"]]]
            trip = []
            for name, rule, paths in d["confs"]:
                q += [["cmd", s, "getRule", d["name"], name], ["cmd", s, "getElementSequence", d["name"], name]]
                for p, v in paths:
                    trip += [d["name"], name, p]
            r = ctx.run(q + ([["cmget", s] + trip] if trip else []))
            names = [c[0] for c in d["confs"]]
            expect(r[0][1].split("\n")[:-1] == names, "%s: configurations of %s are %r, expected %r", what, d["name"], r[0][1].split("\n")[:-1], names)
            els = sorted(p for p, v in d["confs"][0][2]) if d["confs"] else []
            expect(sorted(x for x in r[1][1].split("\n") if x) == els, "%s: elements of %s are %r, expected %r", what, d["name"], r[1][1], els)
            for i, (name, rule, paths) in enumerate(d["confs"]):
                if ("rule", d["name"], name) not in skip:
                    t = r[2 + 2 * i][1]
                    try:
                        g = flat(parse_rule(t), cd) if t != "<none>" else None
                    except Exception:
                        g = "?"
                    expect(g == flat(rule, cd), "%s: the rule of %s.%s is %s, expected the equivalent of %s", what, d["name"], name, t, rule)
                seq = [x for x in r[3 + 2 * i][1].split("\n") if x]
                order = [p for p, v in paths]
                expect(seq == order if d["seq"] else sorted(seq) == sorted(order),
                       "%s: the sequence of %s.%s is %r, expected %r", what, d["name"], name, seq, order)
            if trip:
                for i in range(len(trip) // 3):
                    dn, cn, p = trip[3 * i:3 * i + 3]
                    if ("value", dn, cn, p) in skip:
                        continue
                    v = dict([c for c in d["confs"] if c[0] == cn][0][2])[p]
                    l = root.nodes[p]
                    w = root.text_of(l, root.encode_all(l, v, False))
                    g = r[-1][1 + 2 * i:3 + 2 * i]
                    expect(g[0] == "1" and g[1] == w, "%s: in %s.%s %s is %r, expected %r (from %r)", what, dn, cn, p, g, w, v)

    def commands(self, ctx, case, crits, cd, edds, want):
        """The same scripts as tuning commands."""
        must(ctx.run(boot(ctx, case["st"], "a", crits)), "starting")
        for i, e in enumerate(edds):
            if i % 2:
                rc, out, err = self.tool(ctx, "script", [e])
            else:
                rc, out, err = self.tool(ctx, "script", [], e)
            expect(rc == 0, "PFWScriptGenerator.py refuses a script (%d): %s", rc, err[-800:])
            for line in out.decode("utf-8", "surrogateescape").split("\n"):
                toks = shlex.split(line)
                if not toks:
                    continue
                r = ctx.run([["cmd", "a"] + toks])[0]
                expect(r[0] == "1", "the generated command %r fails: %r", line, r)
        self.compare(ctx, want, cd, "executing the generated commands")

    # ------------------------------------------------------------ errors
    def spoil(self, case, scripts):
        """(texts, what the message must contain, scripts with the fault)."""
        kind, a, b, c = case["fault"]
        scripts = json.loads(json.dumps(scripts))
        pick = a % len(scripts)
        err = None
        doms = []

        def walk(n, names):
            if n[0] == "dg":
                for k in n[3]:
                    walk(k, names + [n[1]])
            elif n[0] == "d":
                doms.append((".".join(names + [n[1]]), n))

        def confs(n, names=()):
            for k in n[-1]:
                if k[0] == "c":
                    yield ".".join(names + (k[1],)), k
                elif k[0] == "cg":
                    yield from confs(k, names + (k[2],))

        def leaves(n, base=""):
            for i, k in enumerate(n[-1]):
                if k[0] == "p":
                    yield (base + "/" if base else "") + k[1], n, i
                elif k[0] == "comp":
                    yield from leaves(k, (base + "/" if base else "") + k[1])
        for s in scripts:
            for n in s:
                walk(n, [])
        if kind == "params":
            many = [(dn, d) for dn, d in doms if len(list(confs(d))) > 1 and list(leaves(list(confs(d))[0][1]))]
            if many:
                dn, d = many[b % len(many)]
                cs = list(confs(d))
                p, holder, i = (lambda l: l[c % len(l)])(list(leaves(cs[b % len(cs)][1])))
                del holder[-1][i]
                err = dn
        elif kind in ("badpath", "badvalue"):
            every = [(dn, cn, p, h, i) for dn, d in doms for cn, x in confs(d) for p, h, i in leaves(x)]
            if kind == "badvalue":
                root = ps.instantiate(case["st"])
                kinds = {l.path: l for l in root.leaves()}
                every = [e for e in every if kinds[e[2]].kind not in ("str",)]
            if every:
                dn, cn, p, h, i = every[b % len(every)]
                if kind == "badvalue":
                    h[-1][i][2] = "x!" + str(c)
                    err = ["value", dn, cn, p, "x!" + str(c)]
                else:
                    # in every configuration of the domain
                    for dn2, d in doms:
                        if dn2 == dn:
                            for cn2, x in confs(d):
                                x[-1].append(["p", "/sys/none%d" % c, "1"])
                    err = ["path", dn, "/sys/none%d" % c]
        elif kind == "badrule":
            every = [(dn, cn, x) for dn, d in doms for cn, x in confs(d)]
            if every:
                dn, cn, x = every[b % len(every)]
                x[-1].append(["r", case["crits"][0]["name"], "Is", "nothing"] if c % 2 else ["r", "Unknown", "Is", case["crits"][0]["vals"][0]])
                err = ["rule", dn, cn, "nothing" if c % 2 else "Unknown"]
        elif kind == "dupdomain" and doms:
            dn = doms[b % len(doms)][0]
            scripts.append([["d", dn, False, []]])
            err = ["dom", dn]
        elif kind == "dupconf":
            every = [(dn, d, cn) for dn, d in doms for cn, x in confs(d)]
            if every:
                dn, d, cn = every[b % len(every)]
                paths = [k for x in confs(d) if x[0] == cn for k in x[1][-1] if k[0] in ("p", "comp")]
                d[-1].append(["c", cn, json.loads(json.dumps(paths))])
                err = ["conf", dn, cn]
        elif kind == "conflict":
            every = [(p, h[-1][i][2]) for dn, d in doms for cn, x in confs(d) for p, h, i in leaves(x)]
            if every:
                p, v = every[b % len(every)]
                scripts.append([["d", "Other", False, [["c", "Any", [["p", p, v]]]]]])
                err = ["conflict", p]
        ls = [Lines(case["fmt"]).script(s) for s in scripts]
        L = ls[pick].lines
        real = [i for i, (ind, t, k, n) in enumerate(L) if k != "junk"]
        if kind == "indent":
            i = b % len(real)
            prev = L[real[i - 1]][0] if i else -1
            L[real[i]] = (prev + 2 + c % 2,) + L[real[i]][1:]
            err = "Line %d," % (real[i] + 1)
        elif kind == "space":
            i = real[b % len(real)]
            ind, t, k = L[i][:3]
            L[i] = (0, ["\t" * ind + " " + t, " " + "\t" * ind + t][c % 2], k, None)
            err = "Line %d," % (i + 1)
        elif kind in ("unknown", "operator"):
            i = real[b % len(real)]
            bad = ["foo bar", "Domain: X", "K0 is Red", "configuration: X", "K0 Is", "K-0 Is Red", "include x"] if kind == "unknown" else \
                ["ALLx", "ANY thing", "ALL:", "ANYANY"]
            L.insert(i, (L[i][0], bad[c % len(bad)], "bad", None))
            err = "Line %d," % (i + 1)
        elif kind == "child":
            bad = {"d": ["domain: X", "a = b", "component: x", "domainGroup: X"], "dg": ["conf: X", "a = b", "component: c"],
                   "cg": ["domain: X", "a = b"], "c": ["domain: X", "conf: Y", "confGroup: Y", "confType: Y"],
                   "p": ["a = b", "K0 Is Red", "ANY", "conf: X"], "r": ["K0 Is Red", "ALL", "a = b"], "o": ["a = b", "conf: X", "component: x"],
                   "comp": ["K0 Is Red", "conf: X", "ANY"], "root": ["conf: X", "K0 Is Red", "ALL", "a = b", "component: x", "confGroup: x"]}
            i = real[b % len(real)]
            ind, t, k = L[i][:3]
            if c % 5 == 0:
                L.insert(i, (0, bad["root"][c // 5 % len(bad["root"])], "bad", None))
                err = "Line %d," % (i + 1)
            else:
                L.insert(i + 1, (ind + 1, bad[k][c // 5 % len(bad[k])], "bad", None))
                err = "Line %d," % (i + 2)
        return [x.text() for x in ls], err, scripts

    def judge_fuzz(self, trees, rc, out, err, nerr):
        expect("Traceback" not in err, "the generator fails on a script: %s", err[-800:])
        line = [n for t, n in trees if n]
        if line:
            expect(rc != 0 and out == b"" and "Line %d," % line[0] in err, "an error on line %d gives exit code %d, %d bytes of output, message %s",
                   line[0], rc, len(out), err[-500:])
            return {"nontrivial": True, "tags": {"fuzz refused"}}
        if any(doubtful(n) for t, _ in trees for n in t):
            return {"tags": {"fuzz doubtful"}}
        m = meaning([t for t, _ in trees])
        for d in m:
            if any(sorted(p for p, v in c[2]) != sorted(p for p, v in d["confs"][0][2]) for c in d["confs"]):
                expect(rc != 0 and out == b"" and any(repr(x["name"]) in err or "'%s'" % x["name"] in err for x in m),
                       "configurations of %s set different parameters: exit code %d, %d bytes of output, message %s",
                       d["name"], rc, len(out), err[-500:])
                return {"nontrivial": True, "tags": {"fuzz inconsistent"}}
        names = [d["name"] for d in m]
        bad = len(set(names)) != len(names) or any(len({c[0] for c in d["confs"]}) != len(d["confs"]) for d in m)
        els = [p for d in m if d["confs"] for p, v in d["confs"][0][2]]
        known = {l.path for l in ps.instantiate(self.st).leaves()}
        unknown = any(p not in known for p in els)
        if bad or unknown or len(set(els)) != len(els) or any(not c[0] for d in m for c in d["confs"]):
            conflict = "There are conflicting elements" in err
            expect(rc == min(255, nerr + conflict) and (rc > 0 or not (bad or unknown or len(set(els)) != len(els))),
                   "exit code %d with %d errors reported: %s", rc, nerr + conflict, err[-500:])
            return {"nontrivial": True, "tags": {"fuzz reported"}}
        return None

    def judge_fault(self, case, fault, rc, out, err, want, nerr, ctx, cd, crits, scripts):
        kind = fault[0]
        if kind in EARLY:
            if kind == "params" and want is None:
                return {"tags": {"no fault"}}
            expect(rc != 0, "a script with an error (%s) is accepted", kind)
            expect(out == b"", "a script with an error (%s) gives output: %r", kind, out[:200])
            if kind.startswith("crit"):
                expect(err.strip(), "an error in the criteria is not reported")
            else:
                expect(want in err, "the message does not name the error (%s): %s", want, err[-500:])
                expect("Traceback" not in err, "the generator fails on an error (%s): %s", kind, err[-800:])
            return {"tags": {"refused " + kind}}
        if want is None:
            expect(rc == 0, "the script is refused (exit code %d): %s", rc, err[-800:])
            return {"tags": {"no fault"}}
        conflict = "There are conflicting elements" in err
        expect(conflict == (kind == "conflict"), "conflicting elements: %s", err[-500:])
        expect(rc == min(255, nerr + conflict), "exit code %d with %d errors reported: %s", rc, nerr + conflict, err[-500:])
        expect(nerr + conflict > 0, "an error (%s) is not reported", kind)
        for w in want[1:]:
            expect(w in err, "the messages do not mention %r: %s", w, err[-500:])
        self.load(ctx, case, crits, out)
        m = meaning(scripts)
        if kind == "conflict":
            self.compare(ctx, m, cd, "the generated settings")
        elif kind == "badvalue":
            expect(nerr == 1, "%d errors are reported: %s", nerr, err[-500:])
            self.compare(ctx, m, cd, "the generated settings", {tuple(want[:4])})
        elif kind == "badrule":
            expect(nerr == 1, "%d errors are reported: %s", nerr, err[-500:])
            self.compare(ctx, m, cd, "the generated settings", {tuple(want[:3])})
            r = ctx.run([["cmd", "a", "getRule", want[1], want[2]]])[0]
            expect(r[1] == "<none>", "the refused rule of %s.%s left %r", want[1], want[2], r)
        elif kind == "dupdomain":
            expect(nerr == 1, "%d errors are reported: %s", nerr, err[-500:])
            self.compare(ctx, m[:-1], cd, "the generated settings")
        elif kind == "badpath":
            for d in m:
                if d["name"] == want[1]:
                    if d["seq"]:
                        d["seq"] = None
                    for x in d["confs"]:
                        x[2][:] = [y for y in x[2] if y[0] != want[2]]
            if not any(d["seq"] is None for d in m):
                self.compare(ctx, m, cd, "the generated settings")
        return {"nontrivial": kind in ("conflict", "badvalue", "badrule"), "tags": {"reported " + kind}}


CHECK = C23
