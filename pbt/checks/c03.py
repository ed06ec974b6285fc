"""C03: a stored rule keeps its meaning when printed, exported or refused."""
import pfdom
import pfstruct as ps
from pf import *

BL = " "


def recognise(t, by):
    """AST of a rule text, None if it is malformed, "?" if the language leaves it open."""
    pos = 0
    unsure = [False]

    class Bad(Exception):
        pass

    def blanks():
        nonlocal pos
        while pos < len(t) and t[pos] == BL:
            pos += 1

    def until(stop):
        nonlocal pos
        a = pos
        while pos < len(t) and t[pos] not in stop:
            pos += 1
        return t[a:pos]

    def word():
        w = until("{} ,")
        if not w or pos == len(t):
            raise Bad
        return w

    def group(name):
        nonlocal pos
        if name not in ("All", "Any"):
            raise Bad
        pos += 1  # the brace
        kids = []
        blanks()
        if pos < len(t) and t[pos] == "}":
            pos += 1
            return [name, kids]
        while True:
            kids.append(item())
            blanks()
            if pos == len(t):
                raise Bad
            if t[pos] == "}":
                pos += 1
                return [name, kids]
            if t[pos] != ",":
                raise Bad
            pos += 1
            blanks()

    def item():
        nonlocal pos
        name = word()
        if t[pos] == "{":
            return group(name)
        if t[pos] != BL:
            raise Bad
        blanks()
        verb = word()
        blanks()
        val = word()
        c = by.get(name)
        if c is None or verb not in ("Is", "IsNot", "Includes", "Excludes") or not c["incl"] and verb in ("Includes", "Excludes"):
            raise Bad
        if c["incl"] and not val.strip("|"):
            unsure[0] = True
        elif pfdom.crit_value(c, val) is None:
            raise Bad
        return ["C", name, verb, val]
    try:
        blanks()
        name = until("{} ,")
        if pos == len(t) or t[pos] != "{":
            raise Bad
        r = group(name)
        rest = t[pos:]
        if rest.strip(BL):
            raise Bad
        if rest or unsure[0]:
            return "?"
        return r
    except Bad:
        return None


class C03(Check):
    pid = "C03"
    technique = "property-based testing: round trips of generated rules through printing, export and import, and mutated rule texts against an independent recogniser of the rule language"
    note = ("Texts are mutated token by token and character by character. Left open, and not judged: blanks after the closing brace, a value "
            "made of '|' only. Criterion names and values are free of blanks and braces.")
    rule = "at least one refused text (or document) and one accepted rule with a condition, read back and compared"
    quick, thorough = 24000, 300000

    TOK = ["{", "}", ",", " ", "All", "Any", "Is", "IsNot", "Includes", "Excludes", "none", "|", "x", "K0", "\t", "All{", "}}", "<", "all",
           "Include", "Exclude", "IsNo", "I", "Al", "Anyy", "Includess"]

    def gen(self, src, tier):
        crits = pfdom.gen_criteria(src, 1, 3)
        vocab = self.TOK + [c["name"] for c in crits] + [n for c in crits for _, n in c["vals"]]

        def sp():
            return src.choice(["", "", "", " ", "  "])

        def op(i):
            r = pfdom.gen_rule(src, crits, src.int(1, 3), 3)
            k = src.weighted([(5, "set"), (6, "mutate"), (2, "random"), (1, "clear"), (2, "xml"), (2, "badxml"), (3, "export")])
            o = {"op": k, "conf": src.int(0, 1), "api": src.coin()}
            if k == "set":
                o["text"] = pfdom.rule_text(r, sp)
            elif k == "mutate":
                t = self.tokens(pfdom.rule_text(r, sp))
                for _ in range(src.int(1, 3)):
                    i = src.below(len(t) + 1)
                    m = src.int(0, 5)
                    if m == 0 and t:
                        del t[i % len(t)]
                    elif m == 1:
                        t.insert(i, src.choice(vocab))
                    elif m == 2 and t:
                        t[i % len(t)] = src.choice(vocab)
                    elif m == 3 and t:
                        t.insert(i, t[src.below(len(t))])
                    elif m == 4 and len(t) > 1:
                        j = src.below(len(t))
                        i = i % len(t)
                        t[i], t[j] = t[j], t[i]
                    else:
                        del t[i:]
                o["text"] = "".join(t)
            elif k == "random":
                o["text"] = "".join(src.list(0, 12, lambda i: src.choice(vocab), avg=6))
            elif k in ("xml", "badxml"):
                o["rule"] = r
                if k == "badxml":
                    o["how"] = src.choice(["crit", "verb", "value", "kind"])
            elif k == "export":
                o["how"] = src.choice(["domain", "domains", "fresh"])
            return o
        return {"crits": crits, "ops": src.list(1, 10, op, avg=5),
                "states": [[pfdom.gen_state(src, c) for c in crits] for _ in range(src.int(1, 5))]}

    def tokens(self, t):
        import re
        return re.findall(r"[A-Za-z0-9|_-]+|.", t)

    ST = {"name": "sys", "subs": [{"name": "s0", "type": "Virtual", "types": [], "inst": [{"k": "bool", "n": "f"}]}]}

    def run(self, case, ctx):
        crits = case["crits"]
        by = {c["name"]: c for c in crits}
        must(ctx.run(boot(ctx, self.ST, criteria=crits)), "starting")
        q = []
        for i in range(2):
            # a configuration each, so that the status tells the rules apart
            q += [["cmd", "a", "createDomain", "D%d" % i], ["cmd", "a", "addElement", "D%d" % i, "/sys/s0/f"],
                  ["cmd", "a", "createConfiguration", "D%d" % i, "c"]]
        must(ctx.run(q), "building")
        rules = [None, None]
        tags, good, bad = set(), 0, 0

        def xml(i, rule_x):
            return ('<ConfigurableDomain Name="D%d"><Configurations><Configuration Name="c">%s</Configuration></Configurations>'
                    '<ConfigurableElements><ConfigurableElement Path="/sys/s0/f"/></ConfigurableElements><Settings><Configuration Name="c">'
                    '<ConfigurableElement Path="/sys/s0/f"><BooleanParameter Name="f">1</BooleanParameter></ConfigurableElement>'
                    '</Configuration></Settings></ConfigurableDomain>') % (i, rule_x)

        def same(what, slot="a"):
            for i in range(2):
                r = ctx.run([["cmd", slot, "getRule", "D%d" % i, "c"]])[0]
                want = "<none>" if rules[i] is None else pfdom.rule_canon(rules[i], by)
                expect(r == ["1", want], "%s: the rule of D%d reads %s, expected %r", what, i, r, want)
            for sv in case["states"]:
                q = [["cset", slot, c["name"], s] for c, s in zip(crits, sv)] + [["cmd", slot, "status"]]
                lines = ctx.run(q)[-1][1].split("\n")
                now = {c["name"]: s for c, s in zip(crits, sv)}
                for i in range(2):
                    w = rules[i] is not None and pfdom.rule_true(rules[i], by, now)
                    line = [l for l in lines if l.startswith("D%d: " % i)]
                    expect(line == ["D%d: <none> [%s]" % (i, "c" if w else "<none>")],
                           "%s: states %s: status %s but the rule %s is %s", what, now, line, rules[i], w)

        for n, o in enumerate(case["ops"]):
            k, i = o["op"], o["conf"]
            d = "D%d" % i
            what = "operation %d %r" % (n, o)
            if k in ("set", "mutate", "random"):
                t = o["text"]
                if not o["api"]:
                    t = trim(t)
                want = recognise(t, by)
                r = ctx.run([["api" if o["api"] else "cmd", "a", "setRule", d, "c", t]])[0]
                if want == "?":
                    got = ctx.run([["cmd", "a", "getRule", d, "c"]])[0][1]
                    rules[i] = None if got == "<none>" else recognise(got, by)
                    expect(rules[i] != "?" and (rules[i] or got == "<none>"), "%s: unreadable rule %r in force", what, got)
                    continue
                expect((r[0] == "1") == (want is not None), "%s: %s, but the text %r is %s", what, r, t,
                       "malformed" if want is None else "a rule")
                if want is None:
                    bad += 1
                    tags.add("refused-" + k)
                    expect(any(r[1:]), "%s: refused without an error", what)
                else:
                    rules[i] = want
                    good += any(x[0] == "C" for x in want[1])
                    tags.add("accepted-" + k)
                    # the printed text is itself accepted and stable
                    c = pfdom.rule_canon(want, by)
                    r = ctx.run([["api" if o["api"] else "cmd", "a", "setRule", d, "c", c], ["cmd", "a", "getRule", d, "c"]])
                    expect(r[0][0] == "1" and r[1] == ["1", c], "%s: printed as %r, set again: %s", what, c, r)
            elif k == "clear":
                must(ctx.run([["cmd", "a", "clearRule", d, "c"]]), what)
                rules[i] = None
            elif k == "xml":
                must(ctx.run([["cmd", "a", "setDomainWithSettingsXML", xml(i, pfdom.rule_xml(o["rule"])), "overwrite"]]), what)
                # the domain now comes last
                rules[i] = o["rule"]
                tags.add("xml")
            elif k == "badxml":
                doc = self.break_xml(o["rule"], o["how"], by)
                if doc is None:
                    continue
                r = ctx.run([["cmd", "a", "setDomainWithSettingsXML", xml(i, doc), "overwrite"]])[0]
                expect(r[0] == "0" and r[1] != "", "%s: %s for %s", what, r, doc)
                bad += 1
                tags.add("badxml-" + o["how"])
            else:
                if o["how"] == "domain":
                    x = ctx.run([["cmd", "a", "getDomainWithSettingsXML", d]])[0]
                    must([x], what)
                    must(ctx.run([["cmd", "a", "deleteDomain", d], ["cmd", "a", "setDomainWithSettingsXML", x[1]]]), what)
                else:
                    x = ctx.run([["cmd", "a", "getDomainsWithSettingsXML"]])[0]
                    must([x], what)
                    if o["how"] == "domains":
                        must(ctx.run([["cmd", "a", "setDomainsWithSettingsXML", x[1]]]), what)
                    else:
                        must(ctx.run(boot(ctx, self.ST, "b", criteria=crits, reset=False) +
                                     [["cmd", "b", "setDomainsWithSettingsXML", x[1]]]), what)
                        same(what, "b")
                        ctx.run([["del", "b"]])
                tags.add("export-" + o["how"])
            same(what)
        return {"nontrivial": good and bad, "tags": tags}

    def break_xml(self, rule, how, by):
        """The rule as XML with the first condition made invalid, or None."""
        import copy
        r = copy.deepcopy(rule)

        def first(x):
            for k in x[1]:
                c = k if k[0] == "C" else first(k)
                if c:
                    return c
            return None
        c = first(r)
        if c is None:
            return None
        if how == "crit":
            c[1] += "x"
        elif how == "verb":
            c[2] += "s"
        elif how == "value":
            c[3] += "|zz" if by[c[1]]["incl"] else "zz"
        else:
            if by[c[1]]["incl"]:
                return None
            c[2] = "Includes"
        return pfdom.rule_xml(r)


CHECK = C03
