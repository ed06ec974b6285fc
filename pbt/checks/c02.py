"""C02: rules evaluate to their documented truth value."""
import pfdom
import pfstruct as ps
from pf import *


class C02(Check):
    pid = "C02"
    technique = "property-based testing: generated rules over generated criteria, evaluated on generated criterion states against a reference evaluator, the same rule given as text, as command arguments and in a settings file"
    note = ("The pending configuration that the status command reports tells which rules hold, without applying anything; every case also "
            "leaves tuning mode once and checks which configurations were applied. States include numbers no value stands for.")
    rule = "a rule with a nested group or at least two criterion conditions, seen both holding and not holding"
    quick, thorough = 36000, 400000

    def gen(self, src, tier):
        crits = pfdom.gen_criteria(src, 1, 4)
        rules = src.list(1, 4, lambda i: pfdom.gen_rule(src, crits, src.int(1, 5), src.int(1, 4)), avg=2)
        texts = [pfdom.rule_text(r, lambda: src.choice(["", "", " ", "  "])) for r in rules]

        def state(c):
            if src.coin(0.1):
                return src.choice([0, -1, 1 << 30, -(1 << 31), (1 << 31) - 1, src.int(-20, 20)])
            if c["incl"] and src.coin(0.5):
                # close to the values of the rules
                v = 0
                for n, _ in c["vals"]:
                    v |= n if src.coin() else 0
                return v
            return pfdom.gen_state(src, c)
        states = src.list(2, 14, lambda i: [state(c) for c in crits], avg=8)
        return {"crits": crits, "rules": rules, "texts": texts, "states": states, "words": src.coin(0.3), "last": src.coin(0.7)}

    def run(self, case, ctx):
        crits = case["crits"]
        by = {c["name"]: c for c in crits}
        st = {"name": "sys", "subs": [{"name": "s0", "type": "Virtual", "types": [], "inst": [
            {"k": "bool", "n": "f%d" % i} for i in range(2 * len(case["rules"]))]}]}
        x = '<ConfigurableDomains SystemClassName="sys">'
        for i, r in enumerate(case["rules"]):
            p = "/sys/s0/f%d" % i
            x += ('<ConfigurableDomain Name="F%d"><Configurations><Configuration Name="yes">%s</Configuration></Configurations>'
                  '<ConfigurableElements><ConfigurableElement Path="%s"/></ConfigurableElements><Settings><Configuration Name="yes">'
                  '<ConfigurableElement Path="%s"><BooleanParameter Name="f%d">1</BooleanParameter></ConfigurableElement></Configuration>'
                  '</Settings></ConfigurableDomain>') % (i, pfdom.rule_xml(r), p, p, i)
        x += "</ConfigurableDomains>"
        must(ctx.run(boot(ctx, st, criteria=[dict(c, state=s) for c, s in zip(crits, case["states"][0])], domains=x)), "starting")
        q = []
        for i, t in enumerate(case["texts"]):
            p = "/sys/s0/f%d" % (i + len(case["rules"]))
            q += [["cmd", "a", "createDomain", "T%d" % i], ["cmd", "a", "addElement", "T%d" % i, p],
                  ["cmd", "a", "setParameter", p, "1"], ["cmd", "a", "createConfiguration", "T%d" % i, "yes"],
                  ["cmd", "a", "setParameter", p, "0"],
                  ["cmd", "a", "setRule", "T%d" % i, "yes"] + (t.split(" ") if case["words"] else [t])]
        must(ctx.run(q), "building")
        seen = [set() for _ in case["rules"]]
        first = {c["name"]: s for c, s in zip(crits, case["states"][0])}
        start = [pfdom.rule_true(r, by, first) for r in case["rules"]]
        for k, sv in enumerate(case["states"]):
            q = [["cset", "a", c["name"], s] for c, s in zip(crits, sv)] + [["cmd", "a", "status"]]
            text = ctx.run(q)[-1][1].split("\n")
            now = {c["name"]: s for c, s in zip(crits, sv)}
            for i, r in enumerate(case["rules"]):
                want = pfdom.rule_true(r, by, now)
                seen[i].add(want)
                for d, how, last in (("F%d" % i, "from the file", start[i]), ("T%d" % i, "set by command", False)):
                    line = "%s: %s [%s]" % (d, "yes" if last else "<none>", ("" if last else "yes") if want else "<none>")
                    got = [l for l in text if l.startswith(d + ": ")]
                    expect(got == [line], "rule %s (%s), states %s: the status reads %s, expected %r", case["texts"][i], how, now, got, line)
        if case["last"]:
            must(ctx.run([["cmd", "a", "setTuningMode", "off"]]), "leaving tuning mode")
            n = len(case["rules"])
            r = ctx.run([["mget", "a"] + ["/sys/s0/f%d" % i for i in range(2 * n)]])[0][1:]
            for i, rule in enumerate(case["rules"]):
                want = pfdom.rule_true(rule, by, now)
                # the domain from the file may also have been applied at start
                expect(r[2 * i + 1] == ("1" if want or start[i] else "0"), "rule %s from the file, states %s: parameter %s after leaving tuning",
                       case["texts"][i], now, r[2 * i + 1])
                expect(r[2 * (n + i) + 1] == ("1" if want else "0"), "rule %s, states %s: parameter %s after leaving tuning",
                       case["texts"][i], now, r[2 * (n + i) + 1])
        tags = set()

        def conds(r):
            return 1 if r[0] == "C" else sum(conds(k) for k in r[1])
        good = False
        for r, s in zip(case["rules"], seen):
            if len(s) == 2 and (conds(r) > 1 or any(k[0] != "C" for k in r[1])):
                good = True
            tags |= {k[2] for k in r[1] if k[0] == "C"} | {r[0]}
        return {"nontrivial": good, "tags": tags}


CHECK = C02
