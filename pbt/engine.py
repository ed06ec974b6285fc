"""Generation from recorded choice sequences (so that every generator shrinks), parallel search,
replay files, evidence."""
import hashlib, json, multiprocessing, os, queue, random, shutil, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, drv

sys.setrecursionlimit(20000)


class Violation(Exception):
    pass


class Src:
    """Source of choices. Smaller choices must mean simpler cases."""

    def __init__(self, rng=None, prefix=()):
        self.rng, self.prefix = rng, prefix
        self.choices, self.spans = [], []

    def below(self, n):
        i = len(self.choices)
        if n <= 1:
            v = 0
        elif i < len(self.prefix):
            v = min(self.prefix[i], n - 1)
        elif self.rng:
            v = self.rng.randrange(n)
        else:
            v = 0
        self.choices.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def coin(self, p=0.5):
        """True with probability p; shrinks to False."""
        n = 1000
        return self.below(n) >= n - int(p * n)

    def choice(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, pairs):
        tot = sum(w for w, _ in pairs)
        v = self.below(tot)
        for w, x in pairs:
            if v < w:
                return x
            v -= w

    def list(self, lo, hi, fn, avg=None):
        """A list of lo..hi items, each in a span that can be deleted."""
        avg = (lo + hi) / 2.0 if avg is None else avg
        p = 1 - 1.0 / (1 + max(0.1, avg - lo))
        out = []
        while len(out) < hi:
            start = len(self.choices)
            if len(out) >= lo and not self.coin(p):
                break
            if len(out) < lo:
                self.choices.append(0)
            out.append(fn(len(out)))
            self.spans.append((start, len(self.choices)))
        return out

    def sample(self, seq, k):
        seq, out = list(seq), []
        for _ in range(min(k, len(seq))):
            out.append(seq.pop(self.below(len(seq))))
        return out

    def shuffle(self, seq):
        return self.sample(seq, len(seq))


class Ctx:
    """What a check's run() gets: drivers and a scratch directory."""

    def __init__(self, built, limit=20, symbolize=False, options=None):
        self.built, self.limit = built, limit
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
        self.dir = tempfile.mkdtemp(prefix="pfv", dir=base)
        self.driver = drv.Driver(built, limit, symbolize, self.dir, options)
        self.extra = {}

    def run(self, requests, raw=False):
        return self.driver.run(requests, raw)

    def write(self, name, text):
        p = os.path.join(self.dir, name)
        with open(p, "wb") as f:
            f.write(text if isinstance(text, bytes) else text.encode("utf-8", "surrogateescape"))
        return p

    def close(self):
        self.driver.close()
        for c in self.extra.values():
            try:
                c.close()
            except Exception:
                pass
        shutil.rmtree(self.dir, ignore_errors=True)


def canon(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def run_case(check, case, ctx):
    """None, or the message of the violation."""
    try:
        return None, check.run(case, ctx)
    except Violation as v:
        return str(v), None
    except drv.Crash as c:
        if getattr(check, "crash_ok", False):
            return None, None
        return "crash: " + str(c), None
    except (drv.HarnessError, MemoryError, OSError):
        raise
    except Exception:
        # a reply the oracle cannot make sense of (on the unchanged tree every reply is understood)
        return "unintelligible reply: " + traceback.format_exc(), None


def shrink(check, choices, spans, ctx, deadline, known):
    best = list(choices)
    best_spans = list(spans)
    evals = [0]
    seen = set()

    def attempt(cand):
        nonlocal best, best_spans
        t = tuple(cand)
        if t in seen or time.time() > deadline:
            return False
        seen.add(t)
        evals[0] += 1
        src = Src(prefix=cand)
        try:
            case = check.gen(src, check.tier)
        except Exception:
            return False
        case = json.loads(canon(case))
        msg, _ = run_case(check, case, ctx)
        if msg is None or known(check, case, msg):
            return False
        key = (len(src.choices), src.choices)
        if key < (len(best), best):
            best, best_spans = list(src.choices), list(src.spans)
            return True
        return False

    improved = True
    while improved and time.time() < deadline and evals[0] < 3000:
        improved = False
        # delete spans, biggest first
        done = False
        while not done and time.time() < deadline:
            done = True
            for s, e in sorted(set(best_spans), key=lambda x: x[0] - x[1]):
                if attempt(best[:s] + best[e:]):
                    improved, done = True, False
                    break
        for size in (8, 4, 2, 1):
            i = len(best) - size
            while i >= 0 and time.time() < deadline:
                if attempt(best[:i] + best[i + size:]):
                    improved = True
                i -= size
        for size in (8, 2):
            i = 0
            while i < len(best) and time.time() < deadline:
                blk = best[i:i + size]
                if any(blk) and attempt(best[:i] + [0] * len(blk) + best[i + size:]):
                    improved = True
                i += size
        i = 0
        while i < len(best) and time.time() < deadline:
            v = best[i]
            if v:
                for cand in sorted({0, v // 2, v - 1}):
                    if cand < v and attempt(best[:i] + [cand] + best[i + 1:]):
                        improved = True
                        break
            i += 1
    return best, evals[0]


def load_known():
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#"):
                out.append(json.loads(line))
    return out


class KnownMatcher:
    """Matches a violation to a recorded finding: same property, and the check recognises the specific
    failing input by the finding's key (check.finding_key)."""

    def __init__(self, pid):
        self.keys = {k["key"]: k for k in load_known() if k.get("property") == pid and k.get("status") == "known"}
        self.hit = {}

    def __call__(self, check, case, msg):
        if not self.keys or not hasattr(check, "finding_key"):
            return False
        k = check.finding_key(case, msg)
        if k in self.keys:
            self.hit[k] = self.hit.get(k, 0) + 1
            return True
        return False


def worker(check, shard, nshards, count, seed, q, stop, guard):
    try:
        ctx = Ctx(check.built, limit=getattr(check, "limit", 20), options=check.options)
        known = KnownMatcher(check.pid)
        rng = random.Random("%s/%s/%s/%s" % (check.pid, seed, shard, check.tier))
        stats = {"evals": 0, "nontrivial": set(), "tags": {}, "samples": [], "known": known.hit}
        viol = None
        for i in range(count):
            if stop.is_set() or time.time() > guard:
                break
            src = Src(rng)
            case = json.loads(canon(check.gen(src, check.tier)))
            stats["evals"] += 1
            msg, info = run_case(check, case, ctx)
            if msg is None:
                info = info or {}
                if info.get("nontrivial"):
                    stats["nontrivial"].add(hashlib.sha1(canon(case).encode()).digest()[:10])
                    if len(stats["samples"]) < 1 and len(canon(case)) < 6000:
                        stats["samples"].append(case)
                for t in info.get("tags", ()):
                    stats["tags"][t] = stats["tags"].get(t, 0) + 1
                continue
            if known(check, case, msg):
                continue
            if weak(msg) and not all(reproduce(check, case, 2)):
                # out of time or of memory, once
                stats["tags"]["unconfirmed-hang"] = stats["tags"].get("unconfirmed-hang", 0) + 1
                continue
            stop.set()
            best, _ = shrink(check, src.choices, src.spans, ctx, time.time() + check.shrink_s, known)
            small = json.loads(canon(check.gen(Src(prefix=best), check.tier)))
            m2, _ = run_case(check, small, ctx)
            viol = (small, m2) if m2 else (case, msg)
            break
        ctx.close()
        q.put(("done", shard, stats, viol))
    except BaseException:
        q.put(("error", shard, traceback.format_exc(), None))


class Check:
    pid = None
    rule = ""
    variant = "asan"
    options = {}
    quick, thorough = 400, 4000
    shrink_s = 60
    shards = 8
    level = "exploration"
    technique = "property-based testing"
    note = ""
    assumptions = ["the build uses clang 18 on x86-64 Linux, -O0, asserts on, ASan and UBSan"]

    def gen(self, src, tier):
        raise NotImplementedError

    def run(self, case, ctx):
        raise NotImplementedError

    def fixed(self):
        """Cases always run first (corpus)."""
        return []

    def prepare(self):
        pass


def write_replay(check, case, msg):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (check.pid, hashlib.sha1(canon(case).encode()).hexdigest()[:10]))
    with open(p, "w") as f:
        json.dump({"property": check.pid, "message": msg, "case": case}, f, indent=1, sort_keys=True)
    return p


def weak(msg):
    """A failure that a slow or crowded machine can cause: it counts only when it comes back."""
    return msg.startswith("crash: driver died (hang)") or msg.startswith("crash: driver died (signal 9)") or ": no answer" in msg or ": no connection" in msg or "seem to wait for it" in msg


def reproduce(check, case, times=3, enough=None):
    """Messages of `times` runs, each in a fresh driver; of fewer once `enough` of them failed."""
    out = []
    for _ in range(times):
        if enough and sum(1 for m in out if m) >= enough:
            break
        ctx = Ctx(check.built, limit=getattr(check, "limit", 20), symbolize=True, options=check.options)
        try:
            out.append(run_case(check, case, ctx)[0])
        finally:
            ctx.close()
    return out


def main(check, argv):
    t0 = time.time()
    check.tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = None
    args = list(argv)
    scale = 1.0
    while args:
        a = args.pop(0)
        if a == "--replay":
            replay = args.pop(0)
        elif a == "--tier":
            check.tier = args.pop(0)
        elif a == "--seed":
            seed = int(args.pop(0))
        elif a == "--scale":
            scale = float(args.pop(0))
        elif a == "--shards":
            check.shards = int(args.pop(0))
    if check.tier not in ("quick", "thorough"):
        check.tier = "quick"
    try:
        check.built = build.ensure(check.variant)
    except build.BuildError as e:
        print("ERROR: build failed: %s" % e)
        return 2
    check.prepare()
    tb = time.time() - t0
    if replay:
        case = json.load(open(replay))["case"]
        msgs = reproduce(check, case, 8, 2)
        for m in msgs:
            print(m)
        if any(msgs):
            print("VIOLATION property=%s replay=%s" % (check.pid, replay))
            return 1
        return 0
    n = int((check.quick if check.tier == "quick" else check.thorough) * scale)
    per = [n // check.shards + (1 if i < n % check.shards else 0) for i in range(check.shards)]
    guard = t0 + (780 if check.tier == "quick" else 3300)
    viol, stats, errors = None, [], []
    known = KnownMatcher(check.pid)
    # corpus
    fixed = check.fixed()
    if fixed:
        ctx = Ctx(check.built, limit=getattr(check, "limit", 20), options=check.options)
        for case in fixed:
            case = json.loads(canon(case))
            msg, _ = run_case(check, case, ctx)
            if msg and not known(check, case, msg):
                viol = (case, msg)
                break
        ctx.close()
    if not viol:
        q, stop = multiprocessing.Queue(), multiprocessing.Event()
        ps = [multiprocessing.Process(target=worker, args=(check, i, check.shards, per[i], seed, q, stop, guard))
              for i in range(check.shards)]
        for p in ps:
            p.start()
        left = len(ps)
        while left:
            try:
                kind, shard, st, v = q.get(timeout=5)
            except queue.Empty:
                if not any(p.is_alive() for p in ps) and q.empty():
                    errors.append("a worker died without reporting")
                    break
                continue
            left -= 1
            if kind == "error":
                errors.append(st)
                stop.set()
            else:
                stats.append(st)
                if v and (viol is None or len(canon(v[0])) < len(canon(viol[0]))):
                    viol = v
        for p in ps:
            p.join(10)
    tags = {}
    hits = dict(known.hit)
    for st in stats:
        for k, v in st["tags"].items():
            tags[k] = tags.get(k, 0) + v
        for k, v in st["known"].items():
            hits[k] = hits.get(k, 0) + v
    nontrivial = set().union(*[st["nontrivial"] for st in stats]) if stats else set()
    samples = [s for st in stats for s in st["samples"]][:3]
    evals = sum(st["evals"] for st in stats) + len(fixed)
    rc = 0
    replay_path = None
    if viol:
        case, msg = viol
        msgs = reproduce(check, case, 8, 2)
        replay_path = write_replay(check, case, msg)
        # A wrong answer seen once is a fact, whether or not the schedule or the layout of the memory that led
        # to it comes back
        if any(msgs) or not weak(msg):
            rc = 1
        else:
            errors.append("violation did not reproduce: %s (%s)" % (msg, msgs))
    ev = {"property": check.pid, "tier": check.tier, "seed": seed, "level": check.level,
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(nontrivial), "rule": check.rule,
                       "samples": samples or [viol[0] if viol else None], "classes": tags,
                       "build_s": round(tb, 1), "fixed_cases": len(fixed)},
          "assumptions": check.assumptions, "wall_s": round(time.time() - t0, 1), "violations": 1 if rc else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", check.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    for k in load_known():
        if k.get("property") == check.pid and k.get("status") == "known":
            print("KNOWN-FINDING: property=%s %s" % (check.pid, k["what"]))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs (build %.1fs) %s" % (
        check.pid, check.tier, seed, evals, len(nontrivial), time.time() - t0, tb,
        " ".join("%s=%d" % kv for kv in sorted(tags.items()))))
    if rc == 1:
        print(([m for m in msgs if m] or [viol[1]])[0])
        if not all(msgs):
            print("(depends on the schedule or on addresses: seen again in %d of %d runs)" % (sum(1 for m in msgs if m), len(msgs)))
        print(json.dumps(viol[0])[:4000])
        print("VIOLATION property=%s replay=%s" % (check.pid, replay_path))
        return 1
    if errors:
        print("ERROR: " + errors[0])
        return 2
    return 0
