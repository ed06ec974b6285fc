"""Client of the native driver process."""
import os, signal, struct, subprocess, sys, tempfile

SAN = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:"
                    "max_allocation_size_mb=2048:handle_abort=0:detect_stack_use_after_return=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=77:report_signal_unsafe=0:second_deadlock_stack=1",
}


class Crash(Exception):
    """The driver process died while executing request number `index`."""

    def __init__(self, index, request, status, stderr, replies):
        self.index, self.request, self.status, self.stderr, self.replies = index, request, status, stderr, replies
        Exception.__init__(self, "driver died (%s) executing %r\n%s" % (status, request, stderr))


class HarnessError(Exception):
    pass


def enc(x):
    if isinstance(x, bytes):
        return x
    if isinstance(x, bool):
        return b"1" if x else b"0"
    if isinstance(x, int):
        return str(x).encode()
    if isinstance(x, float):
        return x.hex().encode() if x == x and abs(x) != float("inf") else str(x).encode()
    return x.encode("utf-8", "surrogateescape")


def dec(b):
    return b.decode("utf-8", "surrogateescape")


class Driver:
    def __init__(self, built, limit=20, symbolize=False, cwd=None, options=None):
        self.options = options or {}
        self.built, self.limit, self.symbolize, self.cwd = built, limit, symbolize, cwd
        self.proc = None
        self.err = tempfile.TemporaryFile()

    def argv(self):
        return [self.built.driver, str(self.limit)]

    def _start(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        env = dict(os.environ)
        for k, v in SAN.items():
            env[k] = v + (":symbolize=1" if self.symbolize else ":symbolize=0")
        for k, v in self.options.items():
            env[k] = env[k] + ":" + v if k in env else v
        env["LC_ALL"] = "C"
        env["PYTHONPATH"] = os.path.join(self.built.dir, "pf", "bindings", "python")
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        self.err.seek(0)
        self.err.truncate()

        def pre():
            os.dup2(r1, 103)
            os.dup2(w2, 104)
            os.dup2(103, 3)
            os.dup2(104, 4)
            os.closerange(5, 256)
        self.proc = subprocess.Popen(self.argv(), stdin=subprocess.DEVNULL,
                                     stdout=self.err, stderr=self.err, close_fds=False, preexec_fn=pre, env=env, cwd=self.cwd)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2
        self.buf = b""
        # not inherited by drivers started later
        os.set_inheritable(self.w, False)
        os.set_inheritable(self.r, False)

    def close(self):
        if self.proc:
            os.close(self.w)
            os.close(self.r)
            try:
                self.proc.wait(5)
            except subprocess.TimeoutExpired:
                self.proc.kill()
                self.proc.wait()
            self.proc = None

    def _read(self, n):
        while len(self.buf) < n:
            d = os.read(self.r, 1 << 16)
            if not d:
                return None
            self.buf += d
        out, self.buf = self.buf[:n], self.buf[n:]
        return out

    def run(self, requests, raw=False):
        """Execute requests in order; returns their replies (lists of text) or raises Crash."""
        if self.proc is None:
            self._start()
        payload = b"".join(
            struct.pack("<I", len(q)) + b"".join(struct.pack("<I", len(a)) + a for a in map(enc, q))
            for q in requests)
        data = struct.pack("<I", len(payload)) + payload
        out = []
        try:
            mv = memoryview(data)
            while mv:
                n = os.write(self.w, mv[:1 << 20])
                mv = mv[n:]
        except BrokenPipeError:
            pass
        for i, q in enumerate(requests):
            rep = self._reply()
            if rep is None:
                st = self.proc.wait()
                os.close(self.w)
                os.close(self.r)
                self.proc = None
                self.err.seek(0)
                text = self.err.read().decode("utf-8", "replace")
                if st in (8, 9) or "HARNESS:" in text:
                    raise HarnessError("driver status %s: %s for %r" % (st, text[-2000:], q))
                how = "hang" if st == -signal.SIGALRM else "signal %d" % -st if st < 0 else "exit %d" % st
                raise Crash(i, q, how, summarize(text), out)
            out.append(rep if raw else [dec(x) for x in rep])
        return out

    def _reply(self):
        h = self._read(4)
        if h is None:
            return None
        out = []
        for _ in range(struct.unpack("<I", h)[0]):
            n = self._read(4)
            if n is None:
                return None
            s = self._read(struct.unpack("<I", n)[0])
            if s is None:
                return None
            out.append(s)
        return out

    def stderr_text(self):
        self.err.seek(0)
        return self.err.read().decode("utf-8", "replace")


class PyDriver(Driver):
    """The same requests, through the Python bindings."""

    def argv(self):
        return ["/usr/bin/python3.12", os.path.join(os.path.dirname(os.path.abspath(__file__)), "pyrun.py"), str(self.limit)]


def summarize(text):
    lines = text.splitlines()
    keep = [l for l in lines if "ERROR:" in l or "runtime error" in l or "Assertion" in l or "SUMMARY" in l
            or "terminate" in l or "what()" in l or "WARNING: ThreadSan" in l]
    frames = [l.strip() for l in lines if l.strip().startswith("#")][:12]
    return "\n".join((keep + frames) or lines[-15:])[:3000]
