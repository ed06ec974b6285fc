"""C27: the client simulator drives the framework exactly as the scenario says."""
import json
import os
import re
import select
import shutil
import signal
import subprocess
import time

from pf import *

TOOL = "/repo/tools/clientSimulator/pfClientSimulator.py"
VALUES = ["a", "ab", "abc", "On", "Off", "x1", "mad", "glad", "Red", "v.2", "b-c", "00", "1", "_z"]
CRITS = ["Mood", "Colors", "SmokeGenerator", "K", "All", "Any", "Is"]
# pauses end as soon as the stand-in for the platform is there
SLEEP = """import os, time
real = time.sleep
def sleep(t):
    for _ in range(1000):
        real(0.02)
        if os.path.exists(os.environ.get("REC", "") + ".pids"):
            break
time.sleep = sleep
"""
STUBS = {
    "remote-process": '#!/bin/sh\nl=$(printf "\\t%s" "$VIA" "$@" .)\nprintf "R%s\\n" "$l" >> "$REC"\necho "remote says $3"\n',
    "test-platform": '#!/bin/sh\ntrap \'printf "E\\n" >> "$REC"; exit 0\' INT\nl=$(printf "\\t%s" "$VIA" "$@" .)\nprintf "T%s\\n" "$l" >> "$REC"\necho $$ >> "$REC.pids"\n'
                     'echo "framework line 1"\necho "framework line 2"\nwhile :; do read x < "$REC.fifo"; done\n',
    "wrapper": '#!/bin/sh\n[ "$1" = -x ] || exit 9\nshift\nVIA=wrapper; export VIA\nexec "$@"\n',
}
SCRIPT = '#!/bin/sh\nprintf "S\\t%s\\n" %d >> "$REC"\necho "script %d speaking"\n%sprintf "F\\t%s\\n" %d >> "$REC"\n'


# a script that runs on its own does not hold up what comes next: it waits for the next command
WAIT = """n=0
while [ $(grep -c "^R" "$REC") -lt %d ]; do
n=$((n+1))
[ $n -lt 400 ] || { printf "W\\t%d\\n" >> "$REC"; break; }
sleep 0.02
done
"""


class C27(Check):
    pid = "C27"
    technique = ("model-based property testing: generated criteria, scenarios, action definitions, scripts and interactive sessions are played by the client "
                 "simulator with recording stand-ins for test-platform and remote-process; the recorded commands are compared with those of a model")
    note = ("Stand-ins found on the PATH record the commands and their order (the real programs are covered by other properties); pauses are "
            "shortened. Actions that redefine a criterion of their definition, criteria unknown to the criteria file and shell metacharacters "
            "in names are not generated.")
    rule = "at least two vectors were applied, of which one leaves criteria out or gives several values"
    quick, thorough = 900, 12000
    shrink_s = 60
    limit = 200

    # ------------------------------------------------------------ generation
    def gen(self, src, tier):
        crits = []
        for n in src.sample(CRITS, src.int(1, 4)):
            crits.append([src.coin(0.5), n, src.sample(VALUES, src.int(1, 5))])
        case = {"crits": crits, "prefix": src.choice(["", "", "wrapper -x", "env"]), "port": str(src.int(1000, 9999)),
                "abs": src.coin(0.3), "verbose": src.coin(0.3), "coverage": src.coin(0.3), "log": src.coin(0.8)}
        case["scripts"] = [src.choice(["synchronous", "asynchronous", "asynchronous", "whenever"]) for _ in range(src.int(1, 3))] if src.coin(0.6) else []
        case["defs"] = [["act%d" % i, self.gen_vector(src, crits)] for i in range(src.int(1, 3))] if src.coin(0.5) else []
        case["mode"] = src.weighted([(6, "args"), (2, "menu"), (2, "both"), (4, "inter")])
        case["bad"] = None
        if case["mode"] == "inter":
            case["plan"] = self.gen_plan(src, case)
        else:
            case["scenarios"] = [src.list(0, 6, lambda i: self.gen_action(src, case), avg=3) for _ in range(src.int(1, 3))]
            order = [src.below(len(case["scenarios"])) for _ in range(src.int(1, 3))]
            case["order"] = order
            case["wrong"] = src.coin(0.3)
            if case["mode"] == "args" and src.coin(0.12):
                case["bad"] = src.choice(["value", "action", "key", "conf", "scriptdef"])
        return case

    def gen_value(self, src, c):
        incl, _, vals = c
        if src.coin(0.15):
            return "0"
        if not incl:
            return src.choice(vals)
        k = src.sample(vals, src.int(0 if src.coin(0.3) else 1, len(vals)))
        return " ".join(k)

    def gen_vector(self, src, crits, but=()):
        out = {}
        for c in crits:
            if c[1] not in but and src.coin(0.5):
                out[c[1]] = self.gen_value(src, c)
        return out

    def gen_action(self, src, case):
        k = src.weighted([(5, "set"), (2, "script"), (3, "def")])
        if k == "script" and case["scripts"]:
            return {"script": "s%d" % src.below(len(case["scripts"]))}
        if k == "def" and case["defs"]:
            n, v = src.choice(case["defs"])
            return {n: self.gen_vector(src, case["crits"], v)}
        return {"setCriterion": self.gen_vector(src, case["crits"])}

    def gen_plan(self, src, case):
        """What a user does at the menus."""
        plan = []
        for _ in range(src.int(1, 10)):
            k = src.weighted([(6, "set"), (3, "unset"), (4, "apply"), (1, "default"), (1, "wrong"), (1, "script")])
            c = src.choice(case["crits"])
            if k == "wrong":
                plan.append(["wrong", src.choice(["99", "-1", "x", "", "7 8"])])
            elif k == "script":
                if case["scripts"]:
                    plan.append(["script", src.below(len(case["scripts"]))])
            elif k == "apply":
                plan.append(["apply"])
            else:
                plan.append([k, c[1], src.choice(c[2])])
        return plan + [["apply"]]

    # ------------------------------------------------------------ model
    def vector(self, case, values):
        """Commands that set criteria, in the order of the criteria file, and apply."""
        out = []
        for incl, n, _ in case["crits"]:
            if n in values:
                v = values[n]
                if incl:
                    v = v.split() if isinstance(v, str) else list(v)
                    v = ["0"] if "0" in v else sorted(set(v)) or [""]
                else:
                    v = [v]
                out.append(["setCriterionState", n] + v)
        return out + [["applyConfigurations"]]

    def scenario(self, case, k):
        """Expected steps: ["R", command...] or ["S", script]; None at the end: fails there."""
        defs = dict((n, v) for n, v in case["defs"])
        out = []
        for a in case["scenarios"][k]:
            (t, v), = a.items()
            if t == "script":
                out.append(["S", int(v[1:])])
            else:
                if t != "setCriterion":
                    v = dict(v, **defs[t])
                out += [["R"] + x for x in self.vector(case, v)]
        return out

    # ------------------------------------------------------------ running
    def files(self, case, ctx):
        top = os.path.join(ctx.dir, "sim")
        shutil.rmtree(top, ignore_errors=True)
        for d in ("bin", "t/scen", "t/scripts/sub", "t/cov", "site"):
            os.makedirs(os.path.join(top, d))

        def put(name, text, x=False):
            p = os.path.join(top, name)
            with open(p, "w") as f:
                f.write(text)
            if x:
                os.chmod(p, 0o755)
            return p
        for n, t in STUBS.items():
            put("bin/" + n, t, True)
        put("site/sitecustomize.py", SLEEP)
        put("rec", "")
        os.mkfifo(os.path.join(top, "rec.fifo"))
        t = os.path.join(top, "t")
        full = (lambda p: os.path.join(t, p)) if case["abs"] else (lambda p: p)
        put("t/criteria.txt", "".join("%sCriterion %s : %s\n" % ("Inclusive" if i else "Exclusive", n, " ".join(v)) for i, n, v in case["crits"]))
        conf = {"PrefixCommand": case["prefix"], "TestPlatformPort": case["port"], "CriterionFile": full("criteria.txt"),
                "PfwConfFile": full("Top.xml"), "ScenariosDirectory": full("scen")}
        if case["log"] or case["coverage"]:
            conf["LogFile"] = full("tests.log")
        if case["scripts"]:
            conf["ScriptsFile"] = full("scripts/all.json")
            put("t/scripts/all.json", json.dumps({"s%d" % i: ["sub/s%d.sh" % i, m] for i, m in enumerate(case["scripts"])}))
            first, steps, fails = self.expected(case)
            for i, m in enumerate(case["scripts"]):
                wait = "sleep 0.05\n"
                if m != "synchronous" and not fails and ["S", i] in steps:
                    at = steps.index(["S", i])
                    if any(x[0] == "R" for x in steps[at:]):
                        wait = WAIT % (len(first) + sum(1 for x in steps[:at] if x[0] == "R") + 1, i)
                put("t/scripts/sub/s%d.sh" % i, SCRIPT % ("%d", i, i, wait, "%d", i), True)
        defs = {n: {"setCriterion": v} for n, v in case["defs"]}
        if case["bad"] == "scriptdef":
            defs["bad"] = {"script": "s0"}
        if defs:
            conf["ActionGathererFile"] = full("actions.json")
            put("t/actions.json", json.dumps(defs))
        if case["coverage"]:
            conf.update({"CoverageDir": full("cov"), "CoverageFile": full("cov.html"), "PfwDomainConfFile": full("D.xml")})
            put("t/cov/aplog2coverage.sh", '#!/bin/sh\nl=$(printf "\\t%s" "$@" .)\nprintf "C%s\\n" "$l" >> "$REC"\n', True)
        if case["bad"] == "key":
            del conf["CriterionFile"]
        if case["bad"] != "conf":
            put("t/conf.json", json.dumps(conf))
        for k, s in enumerate(case.get("scenarios", [])):
            if k == case["order"][-1]:
                if case["bad"] == "value":
                    c = case["crits"][-1]
                    s = s + [{"setCriterion": {c[1]: "wrong" if not c[0] else c[2][0] + " wrong"}}]
                elif case["bad"] in ("action", "scriptdef"):
                    s = s + [{"unknown" if case["bad"] == "action" else "bad": {}}]
            put("t/scen/%d-scenario.json" % k, json.dumps(s))
        return top

    def expected(self, case):
        """(steps before, steps played, does it fail)"""
        first = [["R", "create%sSelectionCriterionFromStateList" % ("Inclusive" if i else "Exclusive"), n] + v for i, n, v in case["crits"]] + [["R", "start"]]
        if case["bad"] in ("key", "conf"):
            return None, [], True
        steps = []
        if case["mode"] == "inter":
            state = {n: ({"0"} if i else "0") for i, n, _ in case["crits"]}
            incl = {n: i for i, n, _ in case["crits"]}
            for p in case["plan"]:
                if p[0] == "apply":
                    steps += [["R"] + x for x in self.vector(case, state)]
                elif p[0] == "script":
                    steps.append(["S", p[1]])
                elif p[0] == "set":
                    state[p[1]] = (state[p[1]] - {"0"}) | {p[2]} if incl[p[1]] else p[2]
                elif p[0] == "unset" and incl[p[1]]:
                    state[p[1]] = (state[p[1]] - {p[2]}) or {"0"}
                elif p[0] == "default" and not incl[p[1]]:
                    state[p[1]] = "0"
            return first, steps, False
        for j, k in enumerate(case["order"]):
            last = j + 1 == len(case["order"])
            if case["bad"] in ("action", "scriptdef") and k == case["order"][-1]:
                return first, steps, True
            steps += self.scenario(case, k)
            if case["bad"] == "value" and k == case["order"][-1]:
                return first, steps, True
        return first, steps, False

    def run(self, case, ctx):
        top = self.files(case, ctx)
        try:
            return self.play(case, ctx, top)
        finally:
            self.stop(top)
            shutil.rmtree(top, ignore_errors=True)

    def stop(self, top):
        try:
            with open(os.path.join(top, "rec.pids")) as f:
                pids = [int(x) for x in f.read().split()]
        except OSError:
            return False
        left = False
        for p in pids:
            try:
                with open("/proc/%d/cmdline" % p, "rb") as f:
                    ours = top.encode() in f.read()
                if ours:
                    left = True
                    os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        return left

    def play(self, case, ctx, top):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONUNBUFFERED="1", PYTHONPATH=os.path.join(top, "site"), REC=os.path.join(top, "rec"),
                   SHELL="/bin/sh", PATH=os.path.join(top, "bin") + ":/usr/bin:/bin", VIA="")
        args = ["env", "--default-signal=INT", "python3", TOOL, os.path.join(top, "t")]
        if case["verbose"]:
            args.append("-v")
        if case["coverage"]:
            args.append("--coverage")
        mode = case["mode"]
        if mode in ("args", "both"):
            args += ["-s"] + [str(k) for k in (case["order"] if mode == "args" else case["order"][:1])]
        if mode == "both":
            args.append("--no-exit")
        if mode == "inter":
            args.append("-i" if case["verbose"] else "--interactive")
        with open(os.path.join(top, "err"), "wb") as err:
            p = subprocess.Popen(args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=err, env=env, cwd=top, start_new_session=True)
        self.answers, self.buf = 0, ""
        end = time.monotonic() + 100
        try:
            if mode == "inter":
                self.interact(case, p, end)
            elif mode != "args":
                for i, k in enumerate(case["order"] if mode == "menu" else case["order"][1:]):
                    if case["wrong"]:
                        self.choose(p, end, "99")
                    self.choose(p, end, "%d-scenario.json" % k)
                self.choose(p, end, "Quit")
            p.stdin.close()
            code = self.drain(p, end)
        except TimeoutError:
            code = "no end after 100 s"
        finally:
            if p.poll() is None:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
            p.stdout.close()
        with open(os.path.join(top, "err"), "rb") as f:
            err = f.read().decode("utf-8", "replace")
        return self.judge(case, top, code, err)

    def read(self, p, end, until=True):
        """Reads what the simulator prints up to a prompt, or its end."""
        while not (until and "Your Choice : " in self.buf):
            if time.monotonic() > end:
                raise TimeoutError()
            if select.select([p.stdout], [], [], 1)[0]:
                d = os.read(p.stdout.fileno(), 65536)
                if not d:
                    return False
                self.buf += d.decode("utf-8", "replace")
        return True

    def choose(self, p, end, what):
        """Answers a menu by the text of an entry, or anything else as it is."""
        if not self.read(p, end):
            return None
        menu, _, self.buf = self.buf.partition("Your Choice : ")
        entries = dict((t, n) for n, t in re.findall(r"^\t(\d+)\. (.*)$", menu, re.M))
        if what is None:
            return entries
        try:
            p.stdin.write(((entries[what] if what in entries else what) + "\n").encode())
            p.stdin.flush()
        except BrokenPipeError:
            pass
        return entries

    def interact(self, case, p, end):
        incl = {n: i for i, n, _ in case["crits"]}
        for x in case["plan"]:
            if x[0] == "apply":
                self.choose(p, end, "Apply Configuration")
            elif x[0] == "wrong":
                self.choose(p, end, x[1])
            elif x[0] == "script":
                self.choose(p, end, "Launch Script")
                self.choose(p, end, "Execute s%d" % x[1])
                self.choose(p, end, "Go Back")
            else:
                self.choose(p, end, "Edit Vector")
                self.choose(p, end, "Edit " + x[1])
                # what can't be chosen is already so
                want = "Set Default" if x[0] == "default" else "%s %s" % (x[0].capitalize(), x[2])
                if not self.read(p, end):
                    return
                if re.search(r"^\t\d+\. %s$" % re.escape(want), self.buf, re.M):
                    self.choose(p, end, want)
                self.choose(p, end, "Go Back")
                self.choose(p, end, "Go Back")
        self.choose(p, end, "Quit")

    def drain(self, p, end):
        self.read(p, end, False)
        while p.poll() is None:
            if time.monotonic() > end:
                raise TimeoutError()
            time.sleep(0.005)
        return p.returncode

    def judge(self, case, top, code, err):
        first, steps, fails = self.expected(case)
        with open(os.path.join(top, "rec")) as f:
            rec = [x.split("\t") for x in f.read().split("\n")[:-1]]
        why = err.strip().split("\n")[-1][:300] if err else ""
        expect(not isinstance(code, str), "the simulator does not end (%s; %d commands recorded)", why, len(rec))
        if fails:
            expect(code != 0, "a wrong input is accepted: exit code %s", code)
            expect(err.strip(), "a wrong input is refused without an error")
        else:
            expect(code == 0, "exit code %s: %s", code, why)
        via = "wrapper" if case["prefix"].startswith("wrapper") else ""
        if first is None:
            expect(not rec, "commands %s without a configuration", rec[:5])
            return {"nontrivial": False, "tags": {"bad-" + case["bad"]: 1}}
        t = os.path.join(top, "t")
        expect(not any(x[0] == "W" for x in rec), "the steps after a script that runs on its own seem to wait for it")
        # what happens in order
        line = [x for x in rec if x[0] == "R" or x[0] in "SF" and case["scripts"][int(x[1])] == "synchronous"]
        want = []
        for x in first + steps:
            if x[0] == "R":
                want.append(["R", via, "localhost", case["port"]] + x[1:] + ["."])
            elif case["scripts"][x[1]] == "synchronous":
                want += [["S", str(x[1])], ["F", str(x[1])]]
        for i, w in enumerate(want):
            expect(i < len(line), "step %d: %s is missing", i, w)
            g = line[i]
            if w[0] == "R" and w[4] == "setCriterionState":
                g = g[:6] + sorted(g[6:-1]) + g[-1:]
                w = w[:6] + sorted(w[6:-1]) + w[-1:]
            expect(g == w, "step %d: %s, expected %s", i, g, w)
        expect(len(line) == len(want), "unexpected %s after the last step", line[len(want):][:3])
        plat = [x for x in rec if x[0] == "T"]
        expect(plat == [["T", via, os.path.join(t, "Top.xml"), case["port"], "."]], "test-platform run as %s", plat)
        # scripts that run on their own: each once, between the steps around its launch and the end
        for k, m in enumerate(case["scripts"]):
            if m == "synchronous":
                continue
            n = sum(1 for x in steps if x == ["S", k])
            got = [i for i, x in enumerate(rec) if x == ["S", str(k)]], [i for i, x in enumerate(rec) if x == ["F", str(k)]]
            if fails:
                # ended before their time
                expect(len(got[1]) <= len(got[0]) <= n, "script %d begins %d times and ends %d times, expected at most %d", k, len(got[0]), len(got[1]), n)
                continue
            expect(len(got[0]) == len(got[1]) == n, "script %d begins %d times and ends %d times, expected %d", k, len(got[0]), len(got[1]), n)
            remote = len(first)
            for s in steps:
                if s[0] == "R":
                    remote += 1
                elif s[1] == k:
                    at = got[0].pop(0)
                    expect(sum(1 for x in rec[:at] if x[0] == "R") >= remote, "script %d begins before the step ahead of it", k)
        cov = [x for x in rec if x[0] == "C"]
        if case["coverage"] and not fails:
            expect(cov == [["C", "-d", os.path.join(t, "D.xml"), "-e.", os.path.join(t, "tests.log"), "-f", "-o", os.path.join(t, "cov.html"), "."]] and
                   rec.index(cov[0]) > max(i for i, x in enumerate(rec) if x[0] in "RSF"), "coverage run as %s", cov)
        else:
            expect(not cov, "coverage not asked for: %s", cov)
        # the host of the framework is not left behind
        end = time.monotonic() + 20
        while time.monotonic() < end and ["E"] not in rec:
            time.sleep(0.01)
            with open(os.path.join(top, "rec")) as f:
                rec = [x.split("\t") for x in f.read().split("\n")[:-1]]
        expect(["E"] in rec, "test-platform is left running")
        if case["log"] or case["coverage"]:
            with open(os.path.join(t, "tests.log")) as f:
                log = f.read()
            says = [x[4] for x in want if x[0] == "R"]
            got = re.findall(r"remote says (\w+)$", log, re.M)
            expect(sorted(got) == sorted(says), "the log shows answers to %s, expected %s", got, says)
            a, b = log.find("framework line 1"), log.find("framework line 2")
            expect(0 <= a < b, "the log lacks what the framework logs")
        vectors = sum(1 for x in steps if x[0] == "R" and x[1] == "applyConfigurations")
        tags = {"mode-" + case["mode"]: 1}
        for k, on in (("vectors", vectors), ("sync script", any(x[0] == "S" and case["scripts"][x[1]] == "synchronous" for x in steps)),
                      ("async script", any(x[0] == "S" and case["scripts"][x[1]] != "synchronous" for x in steps)), ("coverage", cov)):
            if on:
                tags[k] = 1
        if fails:
            tags["bad-" + case["bad"]] = 1
        several = any(x[0] == "R" and x[1] == "setCriterionState" and len(x) > 4 for x in steps)
        fewer = sum(1 for x in steps if x[0] == "R" and x[1] == "setCriterionState") < vectors * len(case["crits"])
        return {"nontrivial": vectors > 1 and (several or fewer), "tags": tags}


CHECK = C27
