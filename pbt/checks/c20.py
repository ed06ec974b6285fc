"""C20: the remote interface is transparent and survives any byte stream."""
import importlib, os, select, socket, struct, subprocess, time
import pfdom
from pf import *

c18 = importlib.import_module("checks.c18")

SYNC = b"\xbe\xba"
BLANKS = b" \t\n\v\f\r"
PATIENCE = 90
UNORDERED = (b"listassociatedelements", b"listconflictingelements", b"listrogueelements")
# nothing here writes to paths a flipped bit could change
NAMES = {k: v for k, v in c18.CMDS.items() if "import" not in k and "export" not in k}


def raw(t):
    return t.encode("utf-8", "surrogateescape")


def packet(data, ident=0, size=None, checksum=0, sync=SYNC):
    return (sync + struct.pack("<IB", (1 + len(data) if size is None else size) & 0xffffffff, ident) + data +
            bytes([((ident + sum(data)) & 255) ^ checksum]))


def strings(l):
    return b"".join(struct.pack("<I", len(s)) + s for s in l)


def parse(stream):
    """What a stream of bytes means: the requests it holds before it ends or goes wrong."""
    out, pos = [], 0
    while len(stream) - pos >= 8:
        if stream[pos:pos + 2] != SYNC:
            break
        size, ident = struct.unpack_from("<IB", stream, pos + 2)
        end = pos + 6 + size
        if size < 1 or len(stream) <= end:
            break
        data = stream[pos + 7:end]
        if (ident + sum(data)) & 255 != stream[end] or ident != 0:
            break
        words, p = [], 0
        while p < len(data):
            if len(data) - p < 4:
                break
            n, = struct.unpack_from("<I", data, p)
            if n > len(data) - p - 4:
                break
            words.append(data[p + 4:p + 4 + n].strip(BLANKS))
            p += 4 + n
        if p != len(data) or not words:
            break
        pos = end + 1
        out.append((pos, words))
    return out


SIZES = [0, 1, 2, 3, 4, 5, 8, 64, 255, 256, 65535, 65536, 1 << 20, 1 << 28, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, (1 << 32) - 2]


def gen_damage(src):
    k = src.weighted([(3, "cut"), (3, "size"), (2, "sizeby"), (2, "id"), (2, "sum"), (2, "sync"), (4, "len"), (3, "lenby"), (3, "flip"), (2, "tail"),
                      (1, "nothing"), (1, "noise"), (1, "before")])
    m = [k, src.below(1 << 16)]
    if k in ("size", "len"):
        m.append(src.choice(SIZES))
    elif k in ("sizeby", "lenby"):
        m.append(src.choice([-1, 1, -2, 2, 4, -4, 5, 100]))
    elif k == "id":
        m.append(src.choice([1, 2, 3, 128, 255]))
    elif k in ("sum", "sync", "flip"):
        m.append(src.int(1, 255))
        m.append(src.coin(0.6))
    elif k in ("tail", "noise", "before"):
        m.append(src.list(1, 12, lambda i: src.weighted([(3, 0), (1, 255), (2, src.below(256))]), avg=4))
    return m


def damaged(words, m):
    """The message of a request, damaged."""
    data = strings(words)
    k, f = m[0], m[1]
    good = packet(data)
    if k == "cut":
        return good[:f * len(good) >> 16]
    if k == "size":
        return packet(data, size=m[2])
    if k == "sizeby":
        return packet(data, size=1 + len(data) + m[2])
    if k == "id":
        return packet(data, ident=m[2])
    if k == "sum":
        return packet(data, checksum=m[2])
    if k == "sync":
        return packet(data, sync=bytes([SYNC[0] ^ (m[2] if m[3] else 0), SYNC[1] ^ (0 if m[3] else m[2])]))
    if k in ("len", "lenby"):
        out = b""
        at = f * len(words) >> 16
        for i, w in enumerate(words):
            n = len(w)
            if i == at:
                n = m[2] if k == "len" else n + m[2]
            out += struct.pack("<I", n & 0xffffffff) + w
        return packet(out)
    if k == "flip":
        if m[3]:
            b = bytearray(data)
            b[f * len(b) >> 16] ^= m[2]
            return packet(bytes(b))
        b = bytearray(good)
        b[f * len(b) >> 16] ^= m[2]
        return bytes(b)
    if k == "tail":
        return packet(data + bytes(m[2]))
    if k == "nothing":
        return packet(b"", size=(f & 3) + 0)
    if k == "noise":
        return bytes(m[2])
    return bytes(m[2]) + good


def plain(words, answers):
    """Answers without what depends on addresses: the order of some listings."""
    return [(ok, b"\n".join(sorted(t.split(b"\n"))) if w and w[0].lower() in UNORDERED else t) for w, (ok, t) in zip(words, answers)] + \
        answers[len(words):]


class Gone(Exception):
    pass


class Peer:
    def __init__(self, port):
        last = None
        for fam, host in ((socket.AF_INET6, "::1"), (socket.AF_INET, "127.0.0.1")):
            try:
                s = socket.socket(fam, socket.SOCK_STREAM)
                s.settimeout(PATIENCE)
                s.connect((host, port))
                break
            except OSError as ex:
                last = ex
                s.close()
        else:
            raise Gone("no connection: %s" % last)
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        s.setblocking(False)
        self.s, self.inp, self.eof = s, bytearray(), False

    def pump(self, out, want):
        """Sends out; then reads until want answers are there, or the end when want is None."""
        out = memoryview(out)
        end = time.time() + PATIENCE
        while True:
            n = self.count()
            if self.eof:
                # the server had enough
                out = out[:0]
            if not out and (n >= want if want is not None else self.eof):
                return
            if self.eof and want is not None:
                raise Gone("the connection was closed")
            if self.eof:
                return
            if time.time() > end:
                raise Gone("no answer")
            r, w, _ = select.select([self.s], [self.s] if out else [], [], 1)
            if r:
                try:
                    d = self.s.recv(1 << 16)
                except BlockingIOError:
                    d = None
                except OSError:
                    d = b""
                if d == b"":
                    self.eof = True
                elif d:
                    self.inp += d
            if w and out:
                try:
                    out = out[self.s.send(out[:1 << 16]):]
                except BlockingIOError:
                    pass
                except OSError:
                    out = out[:0]

    def count(self):
        n, p = 0, 0
        while len(self.inp) - p >= 6:
            p += 7 + struct.unpack_from("<I", self.inp, p + 2)[0]
            if p > len(self.inp):
                break
            n += 1
        return n

    def answers(self):
        out, p = [], 0
        b = bytes(self.inp)
        while p < len(b):
            sync, (size, ident) = b[p:p + 2], struct.unpack_from("<IB", b, p + 2)
            data = b[p + 7:p + 6 + size]
            expect(sync == SYNC, "an answer starts with %r", sync)
            expect(len(b) > p + 6 + size, "an answer is incomplete: %r", b[p:p + 200])
            expect((ident + sum(data)) & 255 == b[p + 6 + size], "an answer has a wrong checksum: %r", b[p:p + 200])
            expect(ident in (1, 2), "an answer has type %d", ident)
            expect(len(data) >= 4 and struct.unpack_from("<I", data)[0] == len(data) - 4, "an answer has the wrong length: %r", data[:200])
            out.append((ident == 1, data[4:]))
            p += 7 + size
        return out

    def close(self, reset=False):
        if reset:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        self.s.close()


def free_port():
    s = socket.socket(socket.AF_INET6)
    try:
        s.bind(("::", 0))
        return s.getsockname()[1]
    finally:
        s.close()


class C20(Check):
    pid = "C20"
    technique = "protocol fuzzing and differential testing: generated sessions of well-formed, fragmented, pipelined and damaged messages over real sockets, against a reference parser and a twin instance driven locally"
    note = ("An instance is started with its remote interface on a loopback port, and an identical twin without. A reference parser decides which "
            "requests a byte stream holds; the twin is given exactly those by its command handler. Status and text of every answer, and the "
            "complete state of both instances after every connection, must be equal. Part of the requests goes through the remote-process "
            "client. Well-formed framing, checksums and lengths of all answers are checked. Clients which neither send nor close are not judged: "
            "the server serves one at a time.")
    rule = "a session with at least one request executed over the connection and one malformed or abandoned message"
    quick, thorough = 8000, 120000
    limit = 60
    profile = {"doms": (1, 2), "confs": (1, 2), "maxleaves": 6}
    options = {"ASAN_OPTIONS": "max_allocation_size_mb=512"}

    def gen(self, src, tier):
        case, w = pfdom.gen_world(src, self.profile, tier)
        case["ops"] = pfdom.gen_setup(src, w, self.profile)
        case["setup"], case["file"] = len(case["ops"]), False
        g = c18.Gen(src, w)

        def words(plain=False):
            if src.coin(0.06):
                return [src.choice(["", "nothing", " status", "status\t", "\x0bhelp\f", "sta tus", "A" * 70000, "\udcff", "help\0x"])]
            name = src.weighted([(c18.HEAVY.get(k, 1), k) for k in NAMES])
            a = g.args(NAMES[name][1].split())
            if src.coin(0.25) and a:
                i = src.below(len(a))
                if isinstance(a[i], str):
                    a[i] = src.choice([" ", "\n", "\t\r", "\x0b \x0c"]) * src.int(0, 2) + a[i] + src.choice([" ", "\n", "\t\r", "\0", "\0x", " \0 "]) * src.int(0, 1)
            return [name] + a

        def item(i):
            x = {"w": words()}
            if src.coin(0.3):
                x["mut"] = gen_damage(src)
            if src.coin(0.3):
                x["cuts"] = src.list(1, 6, lambda j: src.below(1 << 16), avg=2)
            return x

        def conn(i):
            if src.coin(0.05):
                return {"cli": words()}
            c = {"items": src.list(0, 8, item, avg=3), "mode": src.weighted([(3, "step"), (2, "pipe")]),
                 "end": src.weighted([(4, "close"), (1, "rst"), (1, "half"), (1, "early")])}
            if src.coin(0.15):
                c["overlap"] = True
            if src.coin(0.03) and c["items"]:
                c["times"] = src.choice([5, 20, 60])
            return c
        case["session"] = src.list(1, 8, conn, avg=4)
        case["twice"] = src.choice(["open", "prohibited", "forced"]) if src.coin(0.06) else None
        return case

    def words(self, l, ctx):
        return [raw(c18.C18.text(None, a, ctx, "", 0)) for a in l]

    def start(self, ctx, case):
        for _ in range(20):
            port = free_port()
            try:
                pfdom.Runner(ctx, case, "a", port=port)
                break
            except Violation as ex:
                if "Unable to listen" not in str(ex):
                    raise
        else:
            raise OSError("no free port")
        return port

    def run(self, case, ctx):
        port = self.start(ctx, case)
        pfdom.Runner(ctx, case, "b", reset=False)
        q = []
        for o in case["ops"]:
            q += pfdom.requests(o, "a") + pfdom.requests(o, "b")
        ctx.run(q)
        self.ctx, self.tags, self.port = ctx, set(), port
        self.compare("setting up")
        if case["twice"]:
            # the port is taken: only an instance that offers no remote interface can start
            how = case["twice"]
            cp = os.path.join(ctx.dir, "conf-a.xml")
            if how == "prohibited":
                with open(cp) as f:
                    cp = ctx.write("conf-c.xml", f.read().replace('TuningAllowed="true"', 'TuningAllowed="false"'))
            sp = [["new", "c", cp], ["opt", "c", "noremote", 1 if how == "forced" else 0]] + criteria_requests("c", case["crits"]) + [["start", "c"], ["del", "c"]]
            r = ctx.run(sp)[-2]
            if how == "open":
                expect(r[0] == "0" and any(r[1:]), "two instances were started on the same port: %s", r)
            else:
                expect(r[0] == "1", "an instance without remote interface (%s) does not start: %s", how, r)
            self.tags.add("twice-" + how)
        todo = None
        try:
            for n, c in enumerate(case["session"]):
                what = "connection %d" % n
                if "cli" in c:
                    if todo:
                        todo()
                    todo = None
                    self.cli(self.words(c["cli"], ctx), what)
                    self.compare(what)
                    continue
                todo = self.conn(c, what, todo)
                if not c.get("overlap"):
                    todo()
                    todo = None
                    # the next connection is only served when this one is over
                    self.call([b"getValueSpace"], "after " + what)
                    self.compare(what)
            if todo:
                todo()
                todo = None
            self.call([b"version"], "at last")
            self.compare("at last")
        except Gone as ex:
            ctx.run([["ping"]])
            raise Violation("%s: %s" % (what, ex))
        finally:
            if todo:
                todo(False)
        return {"nontrivial": bool({"executed"} & self.tags and {"malformed", "early", "rst"} & self.tags), "tags": self.tags}

    def compare(self, what):
        a, b = (self.ctx.run([["cmd", s, "getDomainsWithSettingsXML"], ["cmd", s, "getElementXML", "/sys"], ["cmd", s, "status"]]) for s in "ab")
        expect(a == b, "%s: the served instance and its twin differ:\n%s", what, c18.diff(b, a))

    def local(self, words):
        r = self.ctx.run([["cmd", "b"] + [w.decode("utf-8", "surrogateescape") for w in words]], raw=True)[0]
        return r[0] == b"1", r[1]

    def call(self, words, what):
        p = Peer(self.port)
        try:
            p.pump(packet(strings(words)), 1)
            got = p.answers()
        finally:
            p.close()
        want = self.local(words)
        expect(plain([words], got) == plain([words], [want]), "%s: %r answers %r, locally %r", what, words, got, want)

    def conn(self, c, what, before):
        """Talks; returns what is left to do: closing."""
        peer = Peer(self.port)
        if before:
            # the connection before this one is still being served
            before()
        msgs, executed = [], []
        for x in c["items"] * c.get("times", 1):
            w = self.words(x["w"], self.ctx)
            if any(len(t) > 3000 for t in w) and c.get("times"):
                continue
            b = damaged(w, x["mut"]) if "mut" in x else packet(strings(w))
            msgs.append((b, x))
        stream = b"".join(b for b, x in msgs)
        meant = parse(stream)
        ends = {p for p, w in meant}
        good = meant[-1][0] if meant else 0
        if good < len(stream):
            self.tags.add("malformed")
        early = c["end"] == "early" and c["mode"] == "step"
        last = meant[-1][0] if early and meant and good == len(stream) else None
        sent = done = 0
        stuck = False
        for b, x in msgs:
            cuts = sorted(f * len(b) >> 16 for f in x.get("cuts", []))
            sent += len(b)
            done = sum(1 for p, w in meant if p <= sent)
            want = done if c["mode"] == "step" and not stuck and sent != last else 0
            pieces = [b[i:j] for i, j in zip([0] + cuts, cuts + [len(b)])]
            for piece in pieces[:-1]:
                peer.pump(piece, 0)
            peer.pump(pieces[-1], want if not peer.eof else 0)
        asked = [w for p, w in meant]
        wants = plain(asked, [self.local(w) for w in asked])
        if meant:
            self.tags.add("executed")
        n = len(meant) - (last is not None)
        if last is not None:
            self.tags.add("early")
        # the answers to what was complete come before anything else
        lossy = c["mode"] == "pipe" and good < len(stream)
        if not lossy:
            peer.pump(b"", n)
        else:
            # the server may close with answers under way
            try:
                peer.pump(b"", n)
            except Gone as ex:
                if "closed" not in str(ex):
                    peer.close()
                    raise
        if lossy:
            k = peer.count()
            got = [] if k == 0 else plain(asked, Peer.answers(self.only(peer, k)))
            expect(got == wants[:len(got)], "%s: answers %r, locally %r", what, got, wants)
        else:
            got = plain(asked, peer.answers()) if last is None else []
            expect(got == wants[:n] or last is not None, "%s: %r answer %r, locally %r", what, asked, got, wants)

        def finish(judge=True):
            if c["end"] == "half" and judge and not peer.eof:
                try:
                    peer.s.shutdown(socket.SHUT_WR)
                except OSError:
                    pass
                peer.pump(b"", None)
                self.tags.add("half")
            if c["end"] == "rst":
                self.tags.add("rst")
            peer.close(c["end"] == "rst")
            if judge and last is None and not lossy:
                expect(plain(asked, peer.answers()) == wants, "%s: more answers than requests: %r", what, peer.answers())
        return finish

    def only(self, peer, k):
        p = 0
        for _ in range(k):
            p += 7 + struct.unpack_from("<I", peer.inp, p + 2)[0]

        class Part:
            inp = peer.inp[:p]
        return Part

    def cli(self, words, what):
        if any(b"\0" in w or len(w) > 100000 for w in words) or sum(map(len, words)) > 1000000:
            return
        if not words[0]:
            return
        self.tags.add("client")
        e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0")
        p = subprocess.run([self.ctx.built.bin + "/remote-process", "localhost", str(self.port)] + words, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=PATIENCE)
        ok, text = self.local([w.strip(BLANKS) for w in words])
        want = (0, text + b"\n", b"") if ok else (1, b"", text + b"\n")
        got = (p.returncode, p.stdout, p.stderr)
        if words[0].strip(BLANKS).lower() in UNORDERED:
            got, want = ([x if isinstance(x, int) else sorted(x.split(b"\n")) for x in y] for y in (got, want))
        expect(got == want, "%s: remote-process %r gives %r, locally %r", what, words, got, want)


CHECK = C20
