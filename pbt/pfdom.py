"""Reference model of criteria, rules, domains and configurations, and generated histories over it."""
import pfstruct as ps
from pf import *

DNAMES = ["D0", "D1", "D2", "Dom 3", "D<&4"]
CNAMES = ["c0", "c1", "c2", "conf 3", "c\"4"]

# ---------------------------------------------------------------- criteria and rules


def gen_criteria(src, lo=1, hi=3):
    out = []
    for i in range(src.int(lo, hi)):
        incl = src.coin(0.5)
        if incl:
            nbits = src.int(1, 4)
            bits = src.sample([0, 1, 2, 3, 4, 30, 31][:5 if src.coin(0.8) else 7], nbits)
            vals = [[(1 << b) - (1 << 32 if b == 31 else 0), "%s%d" % (src.choice("pqr"), b)] for b in sorted(bits)]
        else:
            nums = []
            for _ in range(src.int(1, 4)):
                n = src.weighted([(4, len(nums)), (1, -src.int(1, 5)), (1, src.int(10, 2000))])
                if n not in nums:
                    nums.append(n)
            vals = [[n, "v-%d|" % i if src.coin(0.1) else "v%d" % i] for i, n in enumerate(nums)]
        c = {"name": ["All", "Any", "Is", "Excludes"][i] if src.coin(0.1) else "K%d" % i, "incl": incl, "vals": vals}
        c["state"] = gen_state(src, c)
        out.append(c)
    return out


def gen_state(src, c):
    if c["incl"]:
        v = 0
        for n, _ in c["vals"]:
            if src.coin(0.45):
                v |= n
        if src.coin(0.05):
            v ^= 1 << 9
        return v
    return src.choice(c["vals"])[0] if not src.coin(0.05) else 77


def gen_rule(src, crits, depth=3, width=3, top=True):
    k = "comp" if top or (depth > 0 and src.coin(0.35)) else "crit"
    if k == "comp":
        if top and src.coin(0.06):
            return large_rule(src, crits)
        kids = src.list(0, width, lambda i: gen_rule(src, crits, depth - 1, width, False), avg=1.7)
        return [src.choice(["All", "Any"]), kids]
    c = src.choice(crits)
    if c["incl"]:
        verb = src.choice(["Includes", "Excludes", "Is", "IsNot"])
        names = [n for _, n in c["vals"]] if src.coin(0.4) else [src.choice(c["vals"])[1]]
        if len(names) > 1:
            names = src.sample(names, src.int(1, len(names)))
        val = "|".join(names) if not src.coin(0.08) else "none"
    else:
        verb = src.choice(["Is", "IsNot"])
        val = src.choice(c["vals"])[1]
    return ["C", c["name"], verb, val]


def large_rule(src, crits):
    """A rule of many conditions, or of many levels."""
    if src.coin():
        r = [src.choice(["All", "Any"]), [gen_rule(src, crits, 0, 1, False) for _ in range(src.int(4, 14))]]
        if src.coin():
            r[1].insert(src.below(len(r[1])), gen_rule(src, crits, 2, 3))
        return r
    r = gen_rule(src, crits, 0, 1, False)
    for _ in range(src.choice([7, 12, 30, 100, 190])):
        kids = [r]
        if src.coin(0.3):
            kids.insert(src.below(2), gen_rule(src, crits, 0, 1, False))
        r = [src.choice(["All", "Any"]), kids]
    return r


def crit_value(c, text):
    """Number a value text of a rule denotes, or None."""
    lits = {n: v for v, n in c["vals"]}
    if not c["incl"]:
        return lits.get(text)
    lits["none"] = 0
    v = 0
    for t in [x for x in text.split("|") if x]:
        if t not in lits:
            return None
        v |= lits[t]
    return v


def canon_value(c, v):
    if not c["incl"]:
        return {n: t for n, t in c["vals"]}[v]
    names = [t for _, t in sorted((n & 0xffffffff, t) for n, t in c["vals"] if n & v)]
    return "|".join(names) or "none"


def rule_true(r, crits, states):
    if r[0] in ("All", "Any"):
        return (all if r[0] == "All" else any)(rule_true(k, crits, states) for k in r[1])
    c = crits[r[1]]
    v, s = crit_value(c, r[3]), states[r[1]]
    return {"Is": s == v, "IsNot": s != v, "Includes": s & v == v, "Excludes": s & v == 0}[r[2]]


def rule_canon(r, crits):
    """The text the framework gives for a rule."""
    if r[0] in ("All", "Any"):
        return r[0] + "{" + ", ".join(rule_canon(k, crits) for k in r[1]) + "}"
    return "%s %s %s" % (r[1], r[2], canon_value(crits[r[1]], crit_value(crits[r[1]], r[3])))


def rule_text(r, sp):
    """A text for a rule; sp() gives optional blanks."""
    if r[0] in ("All", "Any"):
        return r[0] + "{" + sp() + ("," + sp()).join(rule_text(k, sp) + sp() for k in r[1]) + "}"
    return r[1] + " " + sp() + r[2] + " " + sp() + r[3]


def rule_xml(r):
    if r[0] in ("All", "Any"):
        return "<CompoundRule Type=%s>%s</CompoundRule>" % (ps.quoteattr(r[0]), "".join(rule_xml(k) for k in r[1]))
    return "<SelectionCriterionRule%s/>" % ps.attrs({"SelectionCriterion": r[1], "MatchesWhen": r[2], "Value": r[3]})


# ---------------------------------------------------------------- model
class Conf:
    def __init__(self, name):
        self.name, self.rule, self.order, self.data = name, None, [], {}


class Dom:
    def __init__(self, name):
        self.name, self.seq, self.els, self.confs, self.last = name, False, [], [], None

    def conf(self, name):
        for c in self.confs:
            if c.name == name:
                return c
        return None


def dup(x):
    return list(x) if isinstance(x, list) else x


class World:
    """The state of one instance. do(op) predicts an operation: (ok, steps); steps is what the back end is
    given: a list of {object path: Values copy at that moment}, each step in any order within itself."""

    def __init__(self, st, crits=(), values=None):
        self.root = ps.instantiate(st)
        self.vals = values or ps.Values(self.root)
        self.nodes = self.vals.nodes
        self.crits = {c["name"]: c for c in crits}
        self.states = {c["name"]: (c["state"] or 0) for c in crits}
        self.doms, self.attached = [], {}
        self.raw = self.hx = False
        self.tuning = self.autosync = True
        self.tuning_allowed = True
        self.resync, self.dead, self.failing = set(), set(), set()
        self.owners = {}
        for n in self.root.all():
            o = n
            while o is not None:
                if o.e and o.e.get("map") and o.kind not in ("system", "sub", "bit") and not \
                        (o.parent is not None and o.parent.e is o.e):
                    self.owners[n.path] = o
                    break
                o = o.parent
        self._lv = {}

    # ---- helpers
    def dom(self, name):
        for d in self.doms:
            if d.name == name:
                return d
        return None

    def lv(self, el):
        r = self._lv.get(el)
        if r is None:
            r = self._lv[el] = [l.path for l in self.nodes[el].leaves()]
        return r

    def snap(self, el):
        return {p: dup(self.vals.v[p]) for p in self.lv(el)}

    def rec(self, n):
        """Is the element in a recording subsystem?"""
        while n is not None and n.kind != "sub":
            n = n.parent
        return n is not None and n.e.get("type") == "REC"

    def objects(self, el):
        """Paths of the subsystem objects holding (a part of) an element."""
        n = self.nodes[el]
        if el in self.owners:
            return {self.owners[el].path} if self.rec(n) else set()
        return {o.path for l in n.all() for o in [self.owners.get(l.path)] if o and self.rec(o)}

    def sub_of(self, path):
        return "/".join(path.split("/")[:3])

    def dom_objects(self, d):
        out = set()
        for e in d.els:
            out |= self.objects(e)
        return out

    def restart(self, back=None):
        """Starts again with the current domains as settings file. back: {object path: bytes} of the readable objects
        (default: none is, so that parameters start at their defaults). Not in tuning mode afterwards."""
        self.tuning, self.autosync = False, True
        self.resync = set()
        self.raw = self.hx = False
        synced = self.back_synced()
        for l in self.vals.leaves:
            # what no domain is about to initialise comes from the back end, by whole objects; the rest is zero for now
            self.vals.v[l.path] = self.vals.initial(l, "default" if l.path in synced else "zero")
        for o, b in (back or {}).items():
            if self.lv(o)[0] in synced:
                self.vals.set_bytes(self.nodes[o], b)
        for d in self.doms:
            d.last = None
        return self.apply(True)

    def back_synced(self):
        """Leaves that start reads from the back end."""
        out = set()

        def agg(n, acc):
            if any(self.applicable(d) for d in self.attached.get(n.path, [])):
                return False
            mine, k = [], 0
            for c in n.kids:
                k += agg(c, mine)
            acc += [n] if k == len(n.kids) else mine
            return k == len(n.kids)
        rogue = []
        agg(self.root, rogue)
        for n in rogue:
            for p in self.lv(n.path):
                o = self.owners.get(p)
                out |= set(self.lv(o.path if o is not None and self.rec(o) else self.sub_of(p)))
        return out

    def step(self, objs):
        """What a synchronisation of these objects gives the back end now."""
        return {o: {p: dup(self.vals.v[p]) for p in self.lv(o)} for o in objs if self.sub_of(o) not in self.dead}

    def belongs(self, el, d):
        n = self.nodes[el]
        return any(n.under(self.nodes[e]) for e in d.els)

    def holder(self, leaf, d):
        """The element of the domain that holds a leaf."""
        for e in d.els:
            if leaf in self.lv(e):
                return e
        return None

    def copy_in(self, c, el):
        for p, v in c.data[el].items():
            self.vals.v[p] = dup(v)

    def applicable(self, d):
        for c in d.confs:
            if c.rule is not None and rule_true(c.rule, self.crits, self.states):
                return c
        return None

    def pending(self, d):
        a = self.applicable(d)
        if a is None:
            return "<none>"
        return "" if a is d.last else a.name

    # ---- applications
    def apply(self, force=False):
        objs, steps = set(), []
        self.applied = []
        for s in sorted(self.resync):
            objs |= self.objects(s)
        self.resync = set()
        for d in self.doms:
            if not d.seq:
                if force:
                    d.last = None
                c = self.applicable(d)
                if c is not None and c is not d.last:
                    for e in c.order:
                        self.copy_in(c, e)
                    d.last = c
                    objs |= self.dom_objects(d)
                    self.applied.append((d.name, c.name))
        steps.append(self.step(objs))
        for d in self.doms:
            if d.seq:
                if force:
                    d.last = None
                c = self.applicable(d)
                if c is not None and c is not d.last:
                    for e in c.order:
                        self.copy_in(c, e)
                        steps.append(self.step(self.objects(e)))
                    d.last = c
                    self.applied.append((d.name, c.name))
        return [s for s in steps if s]

    def sync_ok(self, steps_objs):
        """Does synchronising these objects succeed? Adds what the errors must say to self.errs."""
        for o in steps_objs:
            if self.sub_of(o) in self.dead:
                self.errs.add("Susbsystem not alive")
            elif o in self.failing:
                self.errs.add("write refused by " + o)
        return not any(o in self.failing or self.sub_of(o) in self.dead for o in steps_objs)

    def detach(self, d, el):
        self.attached[el].remove(d)

    def drop_domain(self, d):
        for e in list(d.els):
            self.detach(d, e)
        self.doms.remove(d)

    # ---- operations
    def do(self, o):
        """(expected success or None for unspecified, steps)"""
        f = getattr(self, "do_" + o["op"])
        self.errs = set()
        r = f(o)  # None: whether it succeeds is unspecified
        return r if isinstance(r, tuple) else (r, [])

    def do_createDomain(self, o):
        if not self.tuning or self.dom(o["d"]):
            return False
        self.doms.append(Dom(o["d"]))
        return True

    def do_deleteDomain(self, o):
        d = self.dom(o["d"])
        if not self.tuning or not d:
            return False
        self.drop_domain(d)
        return True

    def do_deleteAllDomains(self, o):
        if not self.tuning:
            return False
        for d in list(self.doms):
            self.drop_domain(d)
        return True

    def do_renameDomain(self, o):
        d = self.dom(o["d"])
        e = self.dom(o["n"])
        if not d or (e and e is not d):
            return False
        d.name = o["n"]
        return True

    def do_setSeq(self, o):
        d = self.dom(o["d"])
        if not self.tuning or not d:
            return False
        d.seq = bool(o["v"])
        return True

    def conf(self, o):
        d = self.dom(o["d"])
        return (d, d.conf(o["c"])) if d else (None, None)

    def do_createConf(self, o):
        d = self.dom(o["d"])
        if not self.tuning or not d or d.conf(o["c"]):
            return False
        c = Conf(o["c"])
        c.order = list(d.els)
        if d.confs:
            c.data = {e: {p: dup(v) for p, v in d.confs[0].data[e].items()} for e in d.els}
        else:
            c.data = {e: self.snap(e) for e in d.els}
        d.confs.append(c)
        return True

    def do_deleteConf(self, o):
        d, c = self.conf(o)
        if not self.tuning or not c:
            return False
        d.confs.remove(c)
        if d.last is c:
            d.last = None
        return True

    def do_renameConf(self, o):
        d, c = self.conf(o)
        if not c:
            return False
        e = d.conf(o["n"])
        if e and e is not c:
            return False
        c.name = o["n"]
        return True

    def do_saveConf(self, o):
        d, c = self.conf(o)
        if not self.tuning or not c:
            return False
        for e in d.els:
            c.data[e] = self.snap(e)
        return True

    def do_restoreConf(self, o):
        d, c = self.conf(o)
        if not self.tuning or not c:
            return False
        steps, ok = [], True
        for e in c.order:
            self.copy_in(c, e)
            if self.autosync and d.seq:
                steps.append(self.step(self.objects(e)))
                ok = ok and self.sync_ok(self.objects(e))
        d.last = c
        if self.autosync and not d.seq:
            steps.append(self.step(self.dom_objects(d)))
            ok = self.sync_ok(self.dom_objects(d))
        return ok, [s for s in steps if s]

    def do_addElem(self, o):
        d = self.dom(o["d"])
        if not self.tuning or o["e"] not in self.nodes or not d or self.belongs(o["e"], d):
            return False
        el = o["e"]
        n = self.nodes[el]
        merged = [e for e in d.els if self.nodes[e].under(n)]
        for c in d.confs:
            c.data[el] = self.snap(el)
            c.order.append(el)
            for e in merged:
                for p, v in c.data.pop(e).items():
                    c.data[el][p] = v
                c.order.remove(e)
        for e in merged:
            d.els.remove(e)
            self.detach(d, e)
        d.els.append(el)
        self.attached.setdefault(el, []).append(d)
        return True

    def do_removeElem(self, o):
        d = self.dom(o["d"])
        if not self.tuning or o["e"] not in self.nodes or not d or o["e"] not in d.els:
            return False
        self.forget(d, o["e"])
        return True

    def forget(self, d, el):
        d.els.remove(el)
        self.detach(d, el)
        for c in d.confs:
            c.order.remove(el)
            del c.data[el]

    def do_split(self, o):
        d = self.dom(o["d"])
        if not self.tuning or o["e"] not in self.nodes or not d or o["e"] not in d.els:
            return False
        n = self.nodes[o["e"]]
        if not n.kids:
            return False
        for k in n.kids:
            d.els.append(k.path)
            self.attached.setdefault(k.path, []).append(d)
            for c in d.confs:
                c.order.append(k.path)
                c.data[k.path] = {p: dup(c.data[o["e"]][p]) for p in self.lv(k.path)}
        self.forget(d, o["e"])
        return True

    def do_setSequence(self, o):
        d, c = self.conf(o)
        seq = o["els"]
        if not self.tuning or not c or len(set(seq)) != len(seq) or any(e not in d.els for e in seq):
            return False
        c.order = seq + [e for e in c.order if e not in seq]
        return True

    def do_setRule(self, o):
        d, c = self.conf(o)
        if not c or o["rule"] is None:
            return False
        c.rule = o["rule"]
        return True

    def do_clearRule(self, o):
        d, c = self.conf(o)
        if not c:
            return False
        c.rule = None
        return True

    def do_setParam(self, o):
        f = self.vals.find(o["p"])
        if not self.tuning or f is None:
            return False
        new = self.vals.encode_all(f[0], o["t"], self.raw, f[1])
        if new is None:
            return False
        self.vals.v[f[0].path] = new
        objs = self.objects(f[0].path) if self.autosync else set()
        return self.sync_ok(objs), [s for s in [self.step(objs)] if s]

    def do_setConfParam(self, o):
        d, c = self.conf(o)
        f = self.vals.find(o["p"])
        if f is None or f[1] is not None or not self.tuning and self.conf_needs_tuning:
            return False
        el = self.holder(f[0].path, d) if c else None
        if not c or el is None:
            return False
        tmp = self.vals.v[f[0].path]
        self.vals.v[f[0].path] = c.data[el][f[0].path]
        new = self.vals.encode_all(f[0], o["t"], self.raw, None)
        self.vals.v[f[0].path] = tmp
        if new is None:
            return False
        c.data[el][f[0].path] = new
        if c is not d.last:
            return True
        self.vals.v[f[0].path] = self.vals.encode_all(f[0], o["t"], self.raw, None)
        objs = self.objects(f[0].path) if self.autosync else set()
        return self.sync_ok(objs), [s for s in [self.step(objs)] if s]

    conf_needs_tuning = False

    def do_hset(self, o):
        """A typed write by text through a handle."""
        f = self.vals.find(o["p"])
        if f is None or f[1] is not None:
            return False
        n = f[0]
        if any(self.attached.get(a.path) for a in [n] + n.ancestors()):
            return False
        new = self.vals.encode_all(n, o["t"], False)
        if n.kind in ps.INTLIKE and n.arr:
            if len([x for x in o["t"].split()]) != n.arr:
                return False
        if self.tuning:
            return None if new is None else True
        if new is None:
            return False
        self.vals.v[n.path] = new
        objs = self.objects(n.path)
        return self.sync_ok(objs), [s for s in [self.step(objs)] if s]

    def do_putElem(self, o):
        """Writing a whole element, as bytes or XML (in real value space)."""
        if not self.tuning or o["e"] not in self.nodes:
            return False
        for p, v in o["v"].items():
            self.vals.v[p] = dup(v)
        objs = self.objects(o["e"]) if self.autosync else set()
        return self.sync_ok(objs), [s for s in [self.step(objs)] if s]

    def do_tuning(self, o):
        on = o["v"]
        if on == self.tuning or (on and not self.tuning_allowed):
            return False
        steps = [] if on else self.apply(True)
        self.tuning = on
        return True, steps

    def all_objects(self):
        return {o.path for o in self.owners.values() if self.rec(o)}

    def do_autosync(self, o):
        if o["v"] and not self.autosync:
            steps = [s for s in [self.step(self.all_objects())] if s]
            ok = self.sync_ok(self.all_objects())
            if ok:
                self.autosync = True
            return ok, steps
        self.autosync = o["v"]
        return True

    def do_sync(self, o):
        if self.autosync:
            return False
        return self.sync_ok(self.all_objects()), [s for s in [self.step(self.all_objects())] if s]

    def do_crit(self, o):
        self.states[o["k"]] = o["v"]
        return True

    def do_apply(self, o):
        return True, ([] if self.tuning else self.apply(False))

    def do_space(self, o):
        self.raw, self.hx = o["raw"], o["hex"]
        return True

    def do_word(self, o):
        """A command that does not know the word it is given: it tells how it is used, and changes nothing."""
        return False

    def do_fault(self, o):
        s = {"failWrite": self.failing, "dead": self.dead, "resync": self.resync}[o["kind"]]
        (s.add if o["v"] else s.discard)(o["p"])
        return True


# ---------------------------------------------------------------- settings documents
def domain_xml(w, d, settings=True, partial=None, space=(False, False)):
    """Document of a domain. partial(domain, configuration, element): are its settings left out?"""
    raw, hx = space
    x = "<ConfigurableDomain%s>" % ps.attrs({"Name": d.name, "SequenceAware": "true" if d.seq else "false"})
    x += "<Configurations>" + "".join("<Configuration%s>%s</Configuration>" % (
        ps.attrs({"Name": c.name}), rule_xml(c.rule) if c.rule is not None else "") for c in d.confs) + "</Configurations>"
    x += "<ConfigurableElements>" + "".join("<ConfigurableElement%s/>" % ps.attrs({"Path": e}) for e in d.els) + \
        "</ConfigurableElements>"
    if settings:
        x += "<Settings>"
        for c in d.confs:
            x += "<Configuration%s>" % ps.attrs({"Name": c.name})
            for e in c.order:
                if partial and partial(d, c, e):
                    continue
                t = ps.settings_tree(w.nodes[e], lambda l: w.vals.text_of(l, c.data[e][l.path], raw, hx))
                x += "<ConfigurableElement%s>%s</ConfigurableElement>" % (ps.attrs({"Path": e}), ps.tree_xml(t))
            x += "</Configuration>"
        x += "</Settings>"
    return x + "</ConfigurableDomain>"


def domains_xml(w, **kw):
    return '<ConfigurableDomains SystemClassName="sys">' + "".join(domain_xml(w, d, **kw) for d in w.doms) + "</ConfigurableDomains>"


# ---------------------------------------------------------------- requests
CMD = {"createDomain": ["d"], "deleteDomain": ["d"], "renameDomain": ["d", "n"], "deleteAllDomains": [],
       "createConf": ["d", "c"], "deleteConf": ["d", "c"], "renameConf": ["d", "c", "n"], "saveConf": ["d", "c"],
       "restoreConf": ["d", "c"], "addElem": ["d", "e"], "removeElem": ["d", "e"], "split": ["d", "e"],
       "setSequence": ["d", "c", "els"], "clearRule": ["d", "c"], "setRule": ["d", "c", "text"], "setSeq": ["d", "v"],
       "setParam": ["p", "t"], "setConfParam": ["d", "c", "p", "t"], "tuning": ["v"], "autosync": ["v"], "sync": []}
NAMES = {"createConf": "createConfiguration", "deleteConf": "deleteConfiguration", "renameConf": "renameConfiguration",
         "saveConf": "saveConfiguration", "restoreConf": "restoreConfiguration", "addElem": "addElement",
         "removeElem": "removeElement", "split": "splitDomain", "setSequence": "setElementSequence",
         "setSeq": "setSequenceAwareness", "setParam": "setParameter", "setConfParam": "setConfigurationParameter",
         "tuning": "setTuningMode", "autosync": "setAutoSync"}


def requests(o, slot="a"):
    k = o["op"]
    if k == "crit":
        return [["cset", slot, o["k"], o["v"]]]
    if k == "apply":
        return [["apply", slot]]
    if k == "word":
        return [["cmd", slot] + o["args"]]
    if k == "space" and o.get("via") == "cmd":
        return [["cmd", slot, "setValueSpace", "raw" if o["raw"] else "real"], ["cmd", slot, "setOutputRawFormat", "hex" if o["hex"] else "dec"]]
    if k == "space":
        return [["api", slot, "setValueSpace", 1 if o["raw"] else 0], ["api", slot, "setOutputRawFormat", 1 if o["hex"] else 0]]
    if k == "fault":
        return [["rfault", o["kind"], 1 if o["v"] else 0, o["p"]]]
    if k == "putElem":
        if o["how"] == "xml":
            return [["cmd", slot, "setElementXML", o["e"], o["doc"]]]
        return [["cmd", slot, "setElementBytes", o["e"]] + o["doc"]]
    if k == "hset":
        if o.get("arr"):
            return [["hpath", slot, o["p"], "setStringArray"] + o["t"].split()]
        return [["hpath", slot, o["p"], "setString", o["t"]]]
    name = NAMES.get(k, k)
    api = o.get("via") == "api" and not (k == "setSequence" and not o["els"])
    args = []
    for a in CMD[k]:
        v = o[a]
        if a == CMD[k][-1] and o.get("split") and not api:
            args += v.split(" ")
        elif a == "els":
            args += v
        elif a == "v":
            args.append((1 if v else 0) if api else (("true" if v else "false") if k == "setSeq" else ("on" if v else "off")))
        else:
            args.append(v)
    return [["api" if api else "cmd", slot, name] + args]


# ---------------------------------------------------------------- generation of histories
def gen_world(src, profile, tier="quick"):
    """(case without operations, World) ready for gen_ops."""
    o = ps.GenOpts(maxleaves=profile.get("maxleaves", 10), width=(1, 3), depth=3, arrays=0.25, rec=profile.get("rec", 0.5),
                   comps=src.coin(0.5), kinds=["int", "bool", "enum", "bits", "str", "fix", "int", "float"])
    st = ps.gen_struct(src, o)
    crits = gen_criteria(src)
    return {"st": st, "crits": crits}, World(st, crits)


def pick_dom(src, w, p_bad=0.06):
    if w.doms and not src.coin(p_bad):
        return src.choice(w.doms).name
    return src.choice(DNAMES)


def pick_conf(src, w, p_bad=0.06):
    ds = [d for d in w.doms if d.confs]
    if ds and not src.coin(p_bad):
        d = src.choice(ds)
        return d.name, src.choice(d.confs).name
    return src.choice(DNAMES), src.choice(CNAMES)


def fresh(src, names, used):
    free = [n for n in names if n not in used]
    return src.choice(free) if free and not src.coin(0.1) else src.choice(names)


def gen_elem(src, w, d):
    nodes = [n for n in w.nodes.values()]
    if src.coin(0.04):
        return src.choice(["/sys/none", "/other", w.nodes["/sys"].kids[0].path + "/zz"])
    return src.choice(nodes).path


IDLE_ON = {"apply", "hset"}
RUNNING = {"apply", "hset", "crit", "tuning", "autosync", "sync", "setRule", "clearRule", "setConfParam", "space", "fault", "word",
           "renameDomain", "renameConf"}


def gen_op(src, w, weights, modal=True, extra=None):
    """modal: mostly operations that make sense in the current mode."""
    ready = modal and not w.tuning and any(w.pending(d) not in ("", "<none>") for d in w.doms)

    def wt(k, x):
        if k == "apply" and ready:
            return 16 * x
        if modal and (k in IDLE_ON if w.tuning else k not in RUNNING):
            return max(1, x // 4)
        return 4 * x if modal else x
    k = src.weighted([(wt(k, x), k) for k, x in weights.items()])
    o = {"op": k}
    if k in ("inspect", "import"):
        return extra(src, w, k)
    if k == "createDomain":
        o["d"] = fresh(src, DNAMES, [d.name for d in w.doms])
    elif k == "renameDomain":
        o["d"], o["n"] = pick_dom(src, w), src.choice(DNAMES)
    elif k in ("deleteDomain",):
        o["d"] = pick_dom(src, w)
    elif k == "setSeq":
        o["d"], o["v"] = pick_dom(src, w), src.coin()
    elif k == "createConf":
        o["d"] = pick_dom(src, w)
        d = w.dom(o["d"])
        o["c"] = fresh(src, CNAMES, [c.name for c in d.confs] if d else [])
    elif k in ("deleteConf", "saveConf", "restoreConf", "clearRule"):
        o["d"], o["c"] = pick_conf(src, w)
    elif k == "renameConf":
        o["d"], o["c"] = pick_conf(src, w)
        o["n"] = src.choice(CNAMES)
    elif k == "addElem":
        o["d"] = pick_dom(src, w)
        o["e"] = gen_elem(src, w, o["d"])
    elif k in ("removeElem", "split"):
        o["d"] = pick_dom(src, w)
        d = w.dom(o["d"])
        cand = list(d.els) if d else []
        if k == "split":
            cand = [e for e in cand if w.nodes[e].kids] or cand
        o["e"] = src.choice(cand) if cand and not src.coin(0.1) else gen_elem(src, w, o["d"])
    elif k == "setSequence":
        o["d"], o["c"] = pick_conf(src, w)
        d = w.dom(o["d"])
        els = list(d.els) if d else []
        o["els"] = src.sample(els, src.int(0, len(els))) if els else []
        if src.coin(0.15):
            o["els"].append(src.choice(o["els"]) if o["els"] and src.coin() else gen_elem(src, w, o["d"]))
        if not o["els"]:
            o["els"] = [gen_elem(src, w, o["d"])] if not els else [src.choice(els)]
    elif k == "setRule":
        o["d"], o["c"] = pick_conf(src, w)
        o["rule"] = gen_rule(src, list(w.crits.values()))
        o["text"] = rule_text(o["rule"], lambda: " " if src.coin(0.1) else "")
    elif k == "setParam":
        l = src.choice(w.vals.leaves)
        o["p"], o["t"] = l.path, trim(ps.gen_text(src, l, w.raw, 0.1))
        if l.kind == "str" and not o["t"]:
            o["t"] = "x"[:l.e["maxlen"]]
        if not o["t"]:
            o["via"] = "api"
    elif k == "setConfParam":
        o["d"], o["c"] = pick_conf(src, w)
        d = w.dom(o["d"])
        ls = [p for e in (d.els if d else []) for p in w.lv(e)]
        l = w.nodes[src.choice(ls)] if ls and not src.coin(0.1) else src.choice(w.vals.leaves)
        o["p"], o["t"] = l.path, trim(ps.gen_text(src, l, w.raw, 0.1))
        if l.kind == "str" and not o["t"]:
            o["t"] = "x"[:l.e["maxlen"]]
        if not o["t"]:
            o["via"] = "api"
    elif k == "hset":
        ls = [l for l in w.vals.leaves if not any(w.attached.get(a.path) for a in [l] + l.ancestors())]
        l = src.choice(ls) if ls and not src.coin(0.2) else src.choice(w.vals.leaves)
        o["p"] = l.path
        if l.kind in ps.INTLIKE and l.arr:
            o["arr"] = True
            o["t"] = " ".join(ps.gen_legal_scalar(src, l.e, False) for _ in range(l.arr))
        else:
            o["t"] = ps.gen_text(src, l, False, 0.1)
    elif k == "putElem":
        n = src.choice([n for n in w.nodes.values() if n.kind != "bit" or src.coin(0.1)])
        o["e"], o["how"] = n.path, "xml" if n.kind == "bit" or src.coin() else "bytes"
        v = w.vals.copy()
        o["v"] = {}
        for l in n.leaves():
            if src.coin(0.8):
                t = ps.gen_text(src, l, False, 0.0)
                new = v.encode_all(l, t, False)
                if new is not None and (l.kind != "str" or t == trim(t)):
                    v.v[l.path] = new
            o["v"][l.path] = dup(v.v[l.path])
        if o["how"] == "xml":
            o["doc"] = ps.tree_xml(ps.settings_tree(n, lambda l: v.text(l.path)))
        else:
            o["doc"] = ["0x%02x" % b for b in v.bytes(n)]
    elif k in ("tuning", "autosync"):
        cur = w.tuning if k == "tuning" else w.autosync
        o["v"] = (not cur) if not src.coin(0.15) else cur
    elif k == "crit":
        c = src.choice(list(w.crits.values()))
        o["k"], o["v"] = c["name"], gen_state(src, c)
    elif k == "space":
        o["raw"], o["hex"] = src.coin(), src.coin()
        o["via"] = "api" if src.coin() else "cmd"
    elif k == "word":
        c, words = src.choice([("setTuningMode", ("on", "off")), ("setAutoSync", ("on", "off")), ("setValueSpace", ("raw", "real")),
                               ("setOutputRawFormat", ("hex", "dec")), ("setSequenceAwareness", ("true", "false"))])
        t = src.choice([src.choice(words).upper(), src.choice(words).capitalize(), src.choice(words)[:-1], src.choice(words) + "s",
                        "on", "off", "1", "0", "true", "false", "raw", "real", "hex", "dec", "x"])
        if t in words:
            t = "no" + t
        o["args"] = [c] + ([pick_dom(src, w)] if c == "setSequenceAwareness" else []) + [t]
    elif k == "fault":
        o["kind"] = src.choice(["failWrite", "dead", "resync"])
        if o["kind"] == "failWrite":
            cand = sorted(w.all_objects()) or ["/sys/none"]
        else:
            cand = [s.path for s in w.root.kids]
        o["p"] = src.choice(cand)
        o["v"] = True if o["kind"] == "resync" else not (o["p"] in (w.failing if o["kind"] == "failWrite" else w.dead))
    if "via" not in o and k in CMD:
        o["via"] = "api" if src.coin(0.3) else "cmd"
    if o.get("via") == "cmd" and k in ("setParam", "setConfParam", "setRule") and " " in o.get("t", o.get("text", "")) and src.coin(0.6):
        o["split"] = True           # the last argument spread over several, as a shell would give it
    # commands drop empty arguments' blanks; deleteAllDomains has none
    return o


def gen_setup(src, w, profile):
    """Operations that build some domains, so that histories start from somewhere."""
    ops = []

    def add(o):
        w.do(o)
        ops.append(o)
    for _ in range(src.int(*profile.get("doms", (1, 3)))):
        free = [n for n in DNAMES if not w.dom(n)]
        if not free:
            break
        d = free[0]
        add({"op": "createDomain", "d": d, "via": "cmd"})
        if src.coin(profile.get("seq", 0.35)):
            add({"op": "setSeq", "d": d, "v": True, "via": "cmd"})
        for _ in range(src.int(0 if src.coin(0.1) else 1, 3)):
            cand = [n.path for n in w.nodes.values() if n.kind not in ("system",) or src.coin(0.1)]
            used = [e for x in w.doms for e in x.els]
            if used and src.coin(profile.get("overlap", 0.25)):
                u = w.nodes[src.choice(used)]
                cand = [n.path for n in u.all() + u.ancestors() if n.kind != "system"] or cand
            e = src.choice(cand)
            if not w.belongs(e, w.dom(d)):
                add({"op": "addElem", "d": d, "e": e, "via": "cmd"})
        # configurations that a criterion switches between, or arbitrary rules
        c = src.choice(list(w.crits.values())) if src.coin(0.5) else None
        for i in range(src.int(*profile.get("confs", (1, 3)))):
            add({"op": "createConf", "d": d, "c": CNAMES[i], "via": "cmd"})
            for e in w.dom(d).els:
                # distinct contents
                for p in w.lv(e)[:4]:
                    if src.coin(0.7):
                        l = w.nodes[p]
                        t = trim(ps.gen_text(src, l, False, 0.0))
                        if t:
                            add({"op": "setConfParam", "d": d, "c": CNAMES[i], "p": p, "t": t, "via": "api"})
            if src.coin(0.85):
                r = gen_rule(src, list(w.crits.values()), 2, 2)
                if c and src.coin(0.9):
                    r = [src.choice(["All", "Any"]), [["C", c["name"], "Includes" if c["incl"] else "Is", c["vals"][i % len(c["vals"])][1]]]]
                add({"op": "setRule", "d": d, "c": CNAMES[i], "rule": r, "text": rule_text(r, lambda: ""), "via": "cmd"})
    return ops


def gen_history(src, profile, tier, world=None, extra=None, prohibited=False):
    """extra(src, world, kind) generates operations the model does not know; they must not change anything."""
    case, w = world or gen_world(src, profile, tier)
    case["ops"] = gen_setup(src, w, profile)
    weights = profile["weights"]
    case["file"] = src.coin(profile.get("file", 0))
    if case["file"]:
        w.restart()
        w.tuning = not prohibited
        w.tuning_allowed = not prohibited

    def op(i):
        o = gen_op(src, w, weights, profile.get("modal", True), extra)
        if hasattr(w, "do_" + o["op"]):
            w.do(o)
        return o
    n = profile.get("n", (3, 25, 12))
    case["setup"] = len(case["ops"])
    if src.coin(profile.get("leave", 0)):
        for o in [{"op": "crit", "k": src.choice(case["crits"])["name"], "v": 0}, {"op": "tuning", "v": False, "via": "cmd"}]:
            if o["op"] == "crit":
                o["v"] = gen_state(src, w.crits[o["k"]])
            w.do(o)
            case["ops"].append(o)
    case["ops"] += src.list(n[0], n[1], op, avg=n[2])
    return case


# ---------------------------------------------------------------- running
class Runner:
    """Runs a history against the framework and the model side by side."""

    def __init__(self, ctx, case, slot="a", settings=None, tuning_on=True, events=False, pre=(), back=None, xml=None, **kw):
        """settings: a World whose domains are the settings file to start with. pre: fault operations before the start.
        back: {object: bytes or None when it can't be read}, default none can."""
        self.ctx, self.case, self.slot = ctx, case, slot
        if settings is None and case.get("file"):
            settings = World(case["st"], case["crits"])
            for o in case["ops"][:case["setup"]]:
                settings.do(o)
        steps = []
        if settings is None:
            self.w = World(case["st"], case["crits"])
        else:
            self.w = settings
            xml = xml or domains_xml(settings)
        for o in pre:
            self.w.do(o)
        steps = self.w.restart({p: b for p, b in (back or {}).items() if b is not None and self.w.sub_of(p) not in self.w.dead})
        q = boot(ctx, case["st"], slot, case["crits"], domains=xml, tuning_on=False, defaults=back is None, **kw)
        first = [x for o in pre for x in requests(o, slot)]
        for p, b in (back or {}).items():
            first += [["rset", p, b.decode("utf-8", "surrogateescape")], ["rfault", "readable", 1, p]] if b is not None else \
                [["rfault", "failRead", 1, p]]
        q[1:1] = first
        r = ctx.run(q[:-1] + [["rrecord", 1], ["rtake"], q[-1], ["rtake"]])
        must(r[:-1], "starting")
        if events:
            self.match_events([x for i, x in enumerate(r[-1])], steps, "starting", reads=True)
        if tuning_on:
            must(ctx.run([["cmd", slot, "setTuningMode", "on"]]), "entering tuning mode")
            self.w.tuning = True
        self.w.tuning_allowed = kw.get("tuning_allowed", True)

    def setup(self):
        """Executes the operations that build the first domains, unless they came from a file."""
        if not self.case.get("file"):
            for n, o in enumerate(self.case["ops"][:self.case["setup"]]):
                self.step(n, o)
            self.ctx.run([["rtake"]])
        return list(enumerate(self.case["ops"]))[self.case["setup"]:]

    def step(self, n, o, events=False):
        """Executes one operation; checks its outcome against the model. Returns (ok, reply, steps)."""
        what = "operation %d %r" % (n, o)
        ok, steps = self.w.do(o)
        q = requests(o, self.slot)
        r = self.ctx.run(q + ([["rtake"]] if events else []))
        rep = r[len(q) - 1]
        if ok is not None:
            expect((rep[0] == "1") == ok, "%s: %s, expected %s", what, rep, "success" if ok else "a refusal")
            if not ok and o["op"] != "hset":
                expect(any(rep[1:]), "%s: refused without an error", what)
            for e in self.w.errs:
                expect(any(e in x for x in rep[1:]), "%s: the error %s does not tell %r", what, rep[1:], e)
        if events:
            self.match_events(r[-1], steps, what)
        return ok, rep, steps

    def events_of(self, rep):
        out = []
        for i in range(1, len(rep), 6):
            what, path, a, b, c, ok = rep[i:i + 6]
            out.append((what, path, a, ok == "1"))
        return out

    def match_events(self, rep, steps, what, reads=False):
        ev = [e for e in self.events_of(rep)]
        if reads:
            ev = [e for e in ev if e[0] == "W"]
        pos = 0
        w = self.w
        scratch = w.vals.copy()
        for i, s in enumerate(steps):
            left = dict(s)
            while left:
                if pos >= len(ev):
                    raise Violation("%s: step %d of %d: %s not written (writes: %s)" % (
                        what, i, len(steps), sorted(left), [e[1] for e in ev]))
                k, path, data, ok = ev[pos]
                expect(k == "W", "%s: unexpected event %s of %s", what, k, path)
                if path not in left:
                    raise Violation("%s: step %d of %d: %s written, expected %s (writes: %s)" % (
                        what, i, len(steps), path, sorted(left), [e[1] for e in ev]))
                b = data.encode("utf-8", "surrogateescape")
                node = w.nodes[path]
                expect(len(b) == node.size(), "%s: %s given %d bytes of %d", what, path, len(b), node.size())
                if node.kind != "bit":
                    scratch.set_bytes(node, b)
                for p, v in left[path].items():
                    expect(scratch.v[p] == v, "%s: step %d: %s written with %s = %s, expected %s", what, i, path, p, scratch.v[p], v)
                expect(ok == (path not in w.failing), "%s: harness", what)
                del left[path]
                pos += 1
        expect(pos == len(ev), "%s: needless writes of %s after the expected %d", what, [e[1] for e in ev[pos:]], pos)

    # ---- observation of the whole state
    def observe(self, what, values=True, confs=True, lists=True, status=True):
        w, s = self.w, self.slot
        q, chk = [], []

        def ask(req, fn):
            q.append(req)
            chk.append(fn)

        def text(name, *args):
            return ["cmd", s, name] + list(args)

        def eq(label, want, sort=False):
            def f(r):
                got = r[1]
                a, b = got, want
                if sort:
                    a, b = sorted(got.splitlines()), sorted(want.splitlines())
                expect(r[0] == "1" and a == b, "%s: %s gives %r, expected %r", what, label, r, want)
            return f
        if values:
            ls = w.vals.leaves

            def f(r):
                for i, l in enumerate(ls):
                    want = w.vals.text(l.path, w.raw, w.hx)
                    expect(r[1 + 2 * i] == "1" and r[2 + 2 * i] == want, "%s: %s reads %r, expected %r", what, l.path,
                           r[1 + 2 * i:3 + 2 * i], want)
            ask(["mget", s] + [l.path for l in ls], f)
        if confs:
            trip, wants = [], []
            for d in w.doms:
                for c in d.confs:
                    for e in c.order:
                        for p in w.lv(e):
                            trip += [d.name, c.name, p]
                            wants.append(w.vals.text_of(w.nodes[p], c.data[e][p], w.raw, w.hx))

            def g(r):
                for i, t in enumerate(wants):
                    expect(r[1 + 2 * i] == "1" and r[2 + 2 * i] == t, "%s: in configuration %s.%s %s reads %r, expected %r", what,
                           trip[3 * i], trip[3 * i + 1], trip[3 * i + 2], r[1 + 2 * i:3 + 2 * i], t)
            ask(["cmget", s] + trip, g)
        if lists:
            ask(text("listDomains"), eq("listDomains", "".join(
                d.name + (" [sequence aware]" if d.seq else "") + "\n" for d in w.doms)))
            for d in w.doms:
                ask(text("listConfigurations", d.name), eq("listConfigurations " + d.name, "".join(c.name + "\n" for c in d.confs)))
                ask(text("listDomainElements", d.name), eq("listDomainElements " + d.name, "".join(e + "\n" for e in d.els)))
                ask(text("getSequenceAwareness", d.name), eq("getSequenceAwareness " + d.name, "true" if d.seq else "false"))
                for c in d.confs:
                    ask(text("getElementSequence", d.name, c.name),
                        eq("getElementSequence %s %s" % (d.name, c.name), "\n" + "".join(e + "\n" for e in c.order)))
                    ask(text("getRule", d.name, c.name),
                        eq("getRule %s %s" % (d.name, c.name), "<none>" if c.rule is None else rule_canon(c.rule, w.crits)))
            names = lambda ds: [d.name for d in ds]
            assoc = [(p, ds) for p, ds in w.attached.items() if ds]
            ask(text("listAssociatedElements"), eq("listAssociatedElements", "".join(
                "%s [%s]\n" % (p, ", ".join(names(ds))) for p, ds in assoc), True))

            def belonging(p):
                out, n = [], w.nodes[p]
                while n is not None:
                    out += w.attached.get(n.path, [])
                    n = n.parent
                return names(out)
            ask(text("listConflictingElements"), eq("listConflictingElements", "".join(
                "%s contained in multiple domains: %s\n" % (p, ", ".join(belonging(p))) for p, ds in assoc
                if len(belonging(p)) > 1), True))
            rogue = []

            def agg(n, out):
                if w.attached.get(n.path):
                    return False
                mine, k = [], 0
                for c in n.kids:
                    k += agg(c, mine)
                if k == len(n.kids):
                    out.append(n.path)
                    return True
                out += mine
                return False
            agg(w.root, rogue)
            ask(text("listRogueElements"), eq("listRogueElements", "".join(p + "\n" for p in rogue)))
            for p in w.nodes:
                ask(text("listBelongingDomains", p), eq("listBelongingDomains " + p, "".join(x + "\n" for x in belonging(p))))
                ask(text("listAssociatedDomains", p), eq("listAssociatedDomains " + p, "".join(
                    x + "\n" for x in names(w.attached.get(p, [])))))
        if status:
            def h(r):
                lines = r[1].split("\n")
                for d in w.doms:
                    t = "%s: %s [%s]" % (d.name, d.last.name if d.last else "<none>", w.pending(d))
                    expect(t in lines, "%s: status lacks the line %r:\n%s", what, t, r[1])
                for t in ("Tuning Mode: " + ("on" if w.tuning else "off"), "Auto Sync: " + ("on" if w.autosync else "off"),
                          "Value Space: " + ("raw" if w.raw else "real"), "Output Raw Format: " + ("hex" if w.hx else "dec")):
                    expect(t in lines, "%s: status lacks the line %r:\n%s", what, t, r[1])
            ask(text("status"), h)
            for name, on, v in (("getTuningMode", w.tuning, ("on", "off")), ("getAutoSync", w.autosync, ("on", "off")),
                                ("getValueSpace", w.raw, ("raw", "real")), ("getOutputRawFormat", w.hx, ("hex", "dec"))):
                ask(text(name), eq(name, v[0] if on else v[1]))
        for f, r in zip(chk, self.ctx.run(q)):
            f(r)
