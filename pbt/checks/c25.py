"""C25: start-up loads the back ends that the configuration names."""
import os, re, shutil
import pfstruct as ps
from pf import *

NPOOL = 6
MARK = b"PLUGID-"


def stems():
    return ["audio", "x", "ab", "Sub-System", "lib", "libfoo", "a.so.b", "v1.2", "q_" + "z" * 40, "so", "d\u00e9"]


class C25(Check):
    pid = "C25"
    technique = ("property-based testing: generated sets of plug-in libraries (dependent on one another, missing, broken), structures and "
                 "start options against a reference of what can be loaded, observed through recording plug-ins")
    note = ("Libraries are copies of one recording plug-in told at run time what to register and what to depend on. Two plug-ins "
            "registering the same type, one listed twice, and short names within a folder are not generated.")
    rule = "at least two plug-ins of which one depends on another, is missing or is broken, or a subsystem whose type nobody registers"
    quick, thorough = 24000, 300000
    # generic names are looked up there; relative to the worker's directory
    options = {"LD_LIBRARY_PATH": "plugs"}

    def gen(self, src, tier):
        n = src.int(0, 5) if src.coin(0.15) else src.int(1, 5)
        names = src.sample(stems(), n)
        plugs = []
        for i in range(n):
            kind = src.weighted([(8, "ok"), (1, "missing"), (1, "text"), (1, "noentry"), (1, "throws")])
            p = {"stem": names[i], "kind": kind, "form": src.choice(["folder", "folder", "bare", "abs", "generic", "rel"]),
                 "types": ["P%d%s" % (i, x) for x in src.sample(["a", "b", ""], src.int(0, 2))], "needs": []}
            plugs.append(p)
        # dependencies: mostly backwards or forwards without cycles, in the order of a hidden ranking
        rank = src.shuffle(list(range(n)))
        for i, p in enumerate(plugs):
            for j in range(n):
                if j != i and (rank[j] < rank[i] or src.coin(0.05)) and src.coin(0.35):
                    p["needs"].append(j)
        st = ps.gen_struct(src, ps.GenOpts(subs=(1, 4), rec=1.0, maxleaves=10, width=(1, 3), depth=3, arrays=0.1))
        known = [t for p in plugs for t in p["types"]]
        odd = ["Virtual", "virtual", "None", "", "REC", "P0 ", "P9a"]
        for s in st["subs"]:
            s["type"] = src.choice(known) if known and src.coin(0.75) else src.choice(odd)
        opts = []
        for _ in range(src.int(0, 4)):
            opts.append([src.choice(["failMissing", "failMissing", "failSettings", "validate"]), src.int(0, 1)])
        second = [["failMissing", src.int(0, 1)], ["failSettings", src.int(0, 1)]] if src.coin(0.5) else None
        leaves = ps.instantiate(st).leaves()
        sets = []
        for _ in range(src.int(1, 6)):
            if leaves:
                l = src.choice(leaves)
                sets.append([l.path, ps.gen_text(src, l, False, 0.0)])
        cut, split = [], sorted(src.sample(list(range(n + 1)), min(n, src.int(0, 2))))
        return {"plugs": plugs, "st": st, "opts": opts, "second": second, "sets": sets, "split": split,
                "empty": src.coin(0.2), "settings": src.choice([None, None, "good", "bad"]), "unmapped": src.coin(0.3),
                "after": [[src.choice(["failMissing", "failSettings", "validate"]), src.int(0, 1)] for _ in range(src.int(0, 2))],
                "delorder": src.coin()}

    # ------------------------------------------------ files
    def pool(self, ctx):
        d = os.path.join(ctx.dir, "pool")
        if not os.path.isdir(d):
            os.mkdir(d)
            with open(os.path.join(ctx.built.dir, "librecplug.so"), "rb") as f:
                data = f.read()
            if data.count(MARK + b"0") != 1:
                raise RuntimeError("the plug-in's mark is not there once")
            for i in range(NPOOL):
                with open(os.path.join(d, "%d.so" % i), "wb") as f:
                    f.write(data.replace(MARK + b"0", MARK + b"%d" % i))
        return d

    def files(self, case, ctx):
        """Puts the libraries into place; returns the text of SubsystemPlugins and the name of each plug-in as listed."""
        pool = self.pool(ctx)
        lib = os.path.join(ctx.dir, "plugs")
        if os.path.isdir(lib):
            for f in os.listdir(lib):
                os.unlink(os.path.join(lib, f))
        else:
            os.mkdir(lib)
        locs, listed = [], []
        for i, p in enumerate(case["plugs"]):
            bare = p["form"] == "bare"
            f = ("" if bare or p["stem"].startswith("lib") and p["form"] != "generic" else "lib") + p["stem"] + ".so"
            path = os.path.join(lib, f)
            if os.path.exists(path):
                os.unlink(path)
            if p["kind"] in ("ok", "throws"):
                os.link(os.path.join(pool, "%d.so" % i), path)
            elif p["kind"] == "noentry":
                shutil.copyfile(os.path.join(ctx.built.dir, "libnoentry.so"), path)
            elif p["kind"] == "text":
                with open(path, "w") as h:
                    h.write("no library\n")
            folder, name = {"folder": (lib, f), "bare": (lib, f), "abs": ("", path), "generic": ("", p["stem"]), "rel": ("plugs", f)}[p["form"]]
            listed.append((folder + "/" if folder else "") + name)
            if locs and locs[-1][0] == folder and i not in case["split"]:
                locs[-1][1].append(name)
            else:
                locs.append([folder, [name]])
        if case["empty"]:
            locs.insert(len(locs) // 2, ["/nowhere", []])
        return "".join("<Location Folder=%s>%s</Location>" % (ps.quoteattr(a), "".join("<Plugin Name=%s/>" % ps.quoteattr(x) for x in b))
                       for a, b in locs), listed

    # ------------------------------------------------ reference
    def loadable(self, case):
        done = set()
        while True:
            more = [i for i, p in enumerate(case["plugs"]) if i not in done and p["kind"] == "ok" and set(p["needs"]) <= done]
            if not more:
                return done
            done |= set(more[:1])

    def run(self, case, ctx):
        names = set()
        for p in case["plugs"]:
            f = p["stem"] if p["form"] == "bare" or p["stem"].startswith("lib") and p["form"] != "generic" else "lib" + p["stem"]
            if f in names:
                return {"nontrivial": False, "tags": ["clash"]}
            names.add(f)
        xml, listed = self.files(case, ctx)
        st = case["st"]
        loaded = self.loadable(case)
        types = {t: i for i in loaded for t in case["plugs"][i]["types"]}
        backed = [s for s in st["subs"] if s["type"] in types]
        orphan = [s for s in st["subs"] if s["type"] not in types and s["type"] != "Virtual"]
        sx = ps.struct_xml(st)
        root = ps.instantiate(st)
        if case["unmapped"]:
            # nobody looks at the mapping of a virtual subsystem
            sx = "".join(re.sub(r'Mapping="Obj:', 'Mapping="Zed:', part) if not any(part.startswith('<Subsystem Name="%s"' % s["name"]) for s in backed)
                         else part for part in re.split(r"(?=<Subsystem )", sx))
        sp = ctx.write("struct.xml", sx)
        dp = None
        if case["settings"]:
            dp = ctx.write("settings.xml", '<ConfigurableDomains SystemClassName=%s>%s</ConfigurableDomains>' % (
                ps.quoteattr(st["name"]), '<ConfigurableDomain Name="D"><Configurations/><ConfigurableElements/></ConfigurableDomain>' if
                case["settings"] == "good" else '<ConfigurableDomain Name="D"><Configurations/><ConfigurableElements>'
                '<ConfigurableElement Path="/sys/nowhere"/></ConfigurableElements></ConfigurableDomain>'))
        cp = ctx.write("conf.xml", re.sub(r"<SubsystemPlugins>.*?</SubsystemPlugins>", lambda m: "<SubsystemPlugins>" + xml + "</SubsystemPlugins>",
                                          ps.config_xml(st, ctx.built, sp, dp), flags=re.S))
        must(ctx.run([["reset"], ["rfault", "failRead", 1, "*"]]))
        tags = set()
        live = []
        for slot, opts in (("a", case["opts"]), ("b", case["second"])):
            if opts is not None:
                if self.start(case, ctx, slot, opts, cp, listed, loaded, types, backed, orphan, root, tags):
                    live.append(slot)
        for slot in live:
            tags.add("alive-%d" % len(live))
        if case["delorder"]:
            live.reverse()
        for i, slot in enumerate(live):
            must(ctx.run([["del", slot]]))
            for other in live[i + 1:]:
                r = ctx.run([["hpath", other, "/sys", "info"]])[0]
                expect(r[0] == "1", "after the other instance is gone, %s has no system any more: %s", other, r)
        must(ctx.run([["reset"]]))
        odd = any(p["needs"] or p["kind"] != "ok" for p in case["plugs"])
        return {"nontrivial": len(case["plugs"]) > 1 and odd or bool(orphan), "tags": tags}

    def start(self, case, ctx, slot, opts, cp, listed, loaded, types, backed, orphan, root, tags):
        st = case["st"]
        q = [["new", slot, cp], ["plugs", "clear"], ["rtake"]]
        for i, p in enumerate(case["plugs"]):
            q.append(["plugs", str(i), "1" if p["kind"] == "throws" else "0", str(len(p["types"]))] + p["types"] + [str(x) for x in p["needs"]])
        o = {"failMissing": 1, "failSettings": 1, "validate": 0}
        q.append(["getopts", slot])
        for k, v in opts:
            q += [["opt", slot, k, v], ["getopts", slot]]
        r = ctx.run(q)
        must(r, "preparing")

        def same(rep, started, what):
            want = [str(o[k]) for k in ("failMissing", "failSettings", "validate")]
            expect(rep[2:5] == want, "%s: the options read %s, expected %s (missing subsystems, settings, validation)", what, rep[2:5], want)
            expect(rep[6] == ("1" if started else "0"), "%s: isStarted gives %s", what, rep[6])
        at = 3 + len(case["plugs"])
        same(r[at], False, "a new instance")
        for k, v in opts:
            at += 2
            o[k] = v
            same(r[at], False, "after setting %s to %d" % (k, v))
        if o["validate"]:
            must(ctx.run([["opt", slot, "validate", 0]]))
            o["validate"] = 0
        failed = [listed[i] for i in range(len(listed)) if i not in loaded]
        bad_settings = case["settings"] == "bad" and o["failSettings"]
        want = not (o["failMissing"] and (failed or orphan)) and not bad_settings
        r = ctx.run([["start", slot], ["getopts", slot], ["rtake"]])
        ok, err = r[0][0] == "1", r[0][1] if len(r[0]) > 1 else ""
        what = "start of %s (%s), back ends %s not loadable, types %s unknown" % (slot, "strict" if o["failMissing"] else "tolerant", failed,
                                                                            [s["type"] for s in orphan])
        expect(ok == want, "%s: %s", what, "succeeded" if ok else "failed: " + err)
        same(r[1], ok, what)
        ev = [r[2][1 + i:7 + i] for i in range(0, len(r[2]) - 1, 6)]
        # back ends: exactly those that can be loaded were, each once
        entered = [int(e[1]) for e in ev if e[0] == "P"]
        expect(sorted(entered) == sorted(loaded), "%s: plug-ins %s were loaded, expected %s", what, entered, sorted(loaded))
        if not ok:
            expect(err.strip(), "%s: no error message", what)
            if failed and o["failMissing"]:
                for f in failed:
                    expect(f in err, "%s: the error does not name %s: %r", what, f, err)
                m = re.search(r"^Unable to load the following plugins: (.*)\.$", err, re.M)
                if m:
                    expect(sorted(m.group(1).split(", ")) == sorted(failed), "%s: the error names %s", what, m.group(1))
                tags.add("strict-plugin")
            elif orphan and o["failMissing"]:
                expect(any(s["name"] in err for s in orphan), "%s: the error names no subsystem: %r", what, err)
                tags.add("strict-type")
            must(ctx.run([["del", slot], ["rtake"]]))
            return False
        tags.add("depends" if any(case["plugs"][i]["needs"] for i in loaded) else "started")
        if failed:
            tags.add("tolerated")
        if orphan:
            tags.add("virtual")
        # each subsystem is served by the plug-in that registered its type
        built = sorted((e[1], e[2]) for e in ev if e[0] == "B")
        expect(built == sorted((s["name"], str(types[s["type"]])) for s in backed), "%s: subsystems were built by plug-ins: %s, expected %s", what, built,
               sorted((s["name"], str(types[s["type"]])) for s in backed))
        own = {}
        for s in backed:
            for n in root.kids:
                if n.path == "/sys/" + s["name"]:
                    for x in n.all():
                        if x.e.get("map") and x.path.rsplit("/", 1)[0] not in own:
                            own[x.path] = x
        for kind, w in (("C", "created"), ("R", "read")):
            got = sorted(e[1] for e in ev if e[0] == kind)
            expect(got == sorted(own), "%s: objects %s for %s, expected %s", what, w, got, sorted(own))
        d = ctx.run([["cmd", slot, "listDomains"]])[0]
        expect((("D" in d[1]) == (case["settings"] == "good")), "%s: settings %s, domains %r", what, case["settings"], d[1])
        # all parameters work, and only those with a back end are written out
        m = ps.Values(root)
        must(ctx.run([["cmd", slot, "setTuningMode", "on"], ["rtake"]]))
        check_all(ctx, m, False, False, slot, what)
        for p, t in case["sets"]:
            if not m.set(p, t, False):
                continue
            r = ctx.run([["api", slot, "setParameter", p, t], ["rtake"]])
            expect(r[0][0] == "1", "%s: setting %s to %r: %s", what, p, t, r[0])
            ev = [r[1][1 + i:7 + i] for i in range(0, len(r[1]) - 1, 6)]
            got = sorted(e[1] for e in ev if e[0] == "W")
            exp = sorted(x for x, n in own.items() if p == x or p.startswith(x + "/"))
            expect(got == exp, "%s: setting %s wrote %s, expected %s", what, p, got, exp)
        check_all(ctx, m, False, False, slot, what)
        # policies are fixed by now
        for k, v in case["after"]:
            r = ctx.run([["opt", slot, k, v], ["getopts", slot]])
            expect(r[0][0] == "0" and r[0][-1], "%s: policy %s could be changed while running: %s", what, k, r[0])
            same(r[1], True, "after a refused change of " + k)
        return True


CHECK = C25
