"""Executes the requests of the native driver through the Python bindings (same protocol, on descriptors 3 and 4)."""
import os, signal, struct, subprocess, sys, threading
import PyPfw


def enc(x):
    return x.encode("utf-8", "surrogateescape")


class Logger(PyPfw.ILogger):
    def __init__(self):
        super().__init__()
        self.lines = []

    def info(self, log):
        self.add("I ", log)

    def warning(self, log):
        self.add("W ", log)

    def add(self, level, log):
        if type(log) is not str:
            raise SystemExit("logged %r" % (log,))
        if len(self.lines) < 5000:
            self.lines.append(level + log)


class Instance:
    def __init__(self, conf):
        self.mgr = PyPfw.ParameterFramework(conf)
        self.logger = Logger()
        self.types = {}
        self.mgr.setForceNoRemoteInterface(True)
        self.mgr.setLogger(self.logger)


insts = {}


def b2s(b):
    if type(b) is not bool:
        return "not a boolean: %r" % (b,)
    return "1" if b else "0"


def texts(r, kinds):
    """The parts of an answer, of the types they must have."""
    if not isinstance(r, (list, tuple)) or len(r) != len(kinds):
        return ["shape", repr(r)]
    out = []
    for v, k in zip(r, kinds):
        if k == "b":
            out.append(b2s(v))
        elif k == "s":
            out.append(v if type(v) is str else "not a text: %r" % (v,))
        elif k == "i":
            out.append(str(v) if type(v) is int else "not a number: %r" % (v,))
        else:
            out.append(v if isinstance(v, (list, tuple)) and all(type(x) is str for x in v) else "not a list of texts: %r" % (v,))
    return out


DIRECT = {"setTuningMode": "b", "setAutoSync": "b", "sync": "", "createDomain": "s", "deleteDomain": "s", "renameDomain": "ss", "deleteAllDomains": "",
          "setSequenceAwareness": "sb", "createConfiguration": "ss", "deleteConfiguration": "ss", "renameConfiguration": "sss", "saveConfiguration": "ss",
          "addConfigurableElementToDomain": "ss", "removeConfigurableElementFromDomain": "ss", "split": "ss", "setApplicationRule": "sss",
          "clearApplicationRule": "ss", "importDomainsXml": "sbb", "importSingleDomainXml": "sbbb"}
NAMES = {"addElement": "addConfigurableElementToDomain", "removeElement": "removeConfigurableElementFromDomain", "splitDomain": "split",
         "setRule": "setApplicationRule", "clearRule": "clearApplicationRule", "importDomains": "importDomainsXml", "importDomain": "importSingleDomainXml"}


def api(a):
    m, f, s = insts[a[1]].mgr, a[2], a[3:]

    def arg(k):
        return s[k] if k < len(s) else ""

    def flag(k):
        return arg(k) == "1"

    def valued(r):
        ok, v, e = texts(r, "bss")
        return [ok, v if ok == "1" else e]
    name = NAMES.get(f, f)
    if name in DIRECT:
        r = texts(getattr(m, name)(*[arg(k) if t == "s" else flag(k) for k, t in enumerate(DIRECT[name])]), "bs")
        return r
    if f == "isTuningModeOn":
        return ["1", b2s(m.isTuningModeOn())]
    if f == "setValueSpace":
        m.setValueSpace(flag(0))
        return ["1", b2s(m.isValueSpaceRaw())]
    if f == "setOutputRawFormat":
        m.setOutputRawFormat(flag(0))
        return ["1", b2s(m.isOutputRawFormatHex())]
    if f == "getFormats":
        return ["1"] + [b2s(x) for x in (m.isValueSpaceRaw(), m.isOutputRawFormatHex(), m.isAutoSyncOn(), m.isTuningModeOn())]
    if f == "setParameter":
        ok, v, e = texts(m.accessParameterValue(arg(0), arg(1), True), "bss")
        return [ok, e]
    if f == "getParameter":
        return valued(m.accessParameterValue(arg(0), "", False))
    if f == "setConfigurationParameter":
        ok, v, e = texts(m.accessConfigurationValue(arg(0), arg(1), arg(2), arg(3), True), "bss")
        return [ok, e]
    if f == "getConfigurationParameter":
        return valued(m.accessConfigurationValue(arg(0), arg(1), arg(2), "", False))
    if f == "getParameterMapping":
        return texts(m.getParameterMapping(arg(0)), "bs")
    if f == "getSequenceAwareness":
        ok, v, e = texts(m.getSequenceAwareness(arg(0)), "bbs")
        return [ok, v if ok == "1" else e]
    if f == "restoreConfiguration":
        ok, l = texts(m.restoreConfiguration(arg(0), arg(1)), "bl")
        return [ok, ""] + list(l)
    if f == "setElementSequence":
        l = s[2:]
        return texts(m.setElementSequence(arg(0), arg(1), l if len(l) % 2 else tuple(l)), "bs")
    if f == "getRule":
        return texts(m.getApplicationRule(arg(0), arg(1)), "bs")
    if f == "exportDomains":
        return valued(m.exportDomainsXml(arg(0), flag(1), flag(2)))
    if f == "exportDomain":
        return valued(m.exportSingleDomainXml(arg(0), arg(1), flag(2), flag(3)))
    raise SystemExit("HARNESS: unknown function " + f)


def odd(a):
    """A call with arguments of wrong types or number: refused by an exception."""
    m = insts[a[1]].mgr
    try:
        r = getattr(m, a[2])(*eval(a[3], {}))
    except (TypeError, ValueError):
        return ["1"]
    return ["0", repr(r)]


def remote(a):
    """Runs remote-process: port, program, words."""
    p = subprocess.run([a[1], "localhost", a[0]] + a[2:], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return ["1" if p.returncode == 0 else "0", os.fsdecode(p.stdout if p.returncode == 0 else p.stderr)]


threads = []


def execute(a):
    o = a[0]
    if o == "remote":
        return remote(a[1:])
    if o == "chat":
        # commands sent while this interface is used
        threads.append(threading.Thread(target=lambda: [remote(a[1:]) for _ in range(4)]))
        threads[-1].start()
        return ["1"]
    if o == "join":
        for t in threads:
            t.join()
        threads.clear()
        return ["1"]
    if o == "reset":
        for i in insts.values():
            del i.mgr
        insts.clear()
        return ["1"]
    if o == "new":
        insts[a[1]] = Instance(a[2])
        return ["1"]
    if o == "log":
        l = insts[a[1]].logger
        r, l.lines = l.lines, []
        return ["1"] + r
    if o == "del":
        del insts[a[1]]
        return ["1"]
    if o == "api":
        return api(a)
    if o == "odd":
        return odd(a)
    i = insts[a[1]]
    m = i.mgr
    if o == "opt":
        v = a[3] == "1"
        if a[2] == "noremote":
            m.setForceNoRemoteInterface(v)
            return ["1", ""]
        if a[2] == "schema":
            m.setSchemaUri(a[3])
            return ["1", ""]
        return texts({"failMissing": m.setFailureOnMissingSubsystem, "failSettings": m.setFailureOnFailedSettingsLoad,
                      "validate": m.setValidateSchemasOnStart}[a[2]](v), "bs")
    if o == "getopts":
        return ["1"] + [b2s(x) for x in (m.getForceNoRemoteInterface(), m.getFailureOnMissingSubsystem(), m.getFailureOnFailedSettingsLoad(),
                                         m.getValidateSchemasOnStart())] + texts([m.getSchemaUri()], "s")
    if o == "ctype":
        i.types[a[2]] = m.createSelectionCriterionType(a[3] == "1")
        return ["1"]
    if o == "cadd":
        return texts(i.types[a[2]].addValuePair(int(a[3]), a[4]), "bs")
    if o == "cnum":
        ok, v = texts(i.types[a[2]].getNumericalValue(a[3]), "bi")
        return [ok, v if ok == "1" else ""]
    if o == "clit":
        ok, v = texts(i.types[a[2]].getLiteralValue(int(a[3])), "bs")
        return [ok, v if ok == "1" else ""]
    if o == "cfmt":
        return ["1"] + texts([i.types[a[2]].getFormattedState(int(a[3])), i.types[a[2]].isTypeInclusive()], "sb")
    if o == "crit":
        c = m.createSelectionCriterion(a[2], i.types[a[3]])
        return ["0", ""] if c is None else ["1"] + texts([c.getCriterionName()], "s")
    if o in ("cset", "cget"):
        c = m.getSelectionCriterion(a[2])
        if c is None:
            return ["0"]
        if o == "cset":
            r = c.setCriterionState(int(a[3]))
            return ["1"] if r is None else ["shape", repr(r)]
        t = c.getCriterionType()
        return ["1"] + texts([c.getCriterionState(), c.getCriterionName(), t.getFormattedState(c.getCriterionState()), t.isTypeInclusive()], "issb")
    if o == "start":
        return texts(m.start(), "bs")
    if o == "apply":
        r = m.applyConfigurations()
        return ["1"] if r is None else ["shape", repr(r)]
    if o == "mget":
        out = ["1"]
        for p in a[2:]:
            ok, v, e = texts(m.accessParameterValue(p, "", False), "bss")
            out += [ok, v if ok == "1" else e]
        return out
    if o == "cmget":
        out = ["1"]
        for k in range(2, len(a) - 2, 3):
            ok, v, e = texts(m.accessConfigurationValue(a[k], a[k + 1], a[k + 2], "", False), "bss")
            out += [ok, v if ok == "1" else e]
        return out
    raise SystemExit("HARNESS: unknown request " + o)


def main():
    limit = int(sys.argv[1])
    f = os.fdopen(3, "rb", closefd=False)

    def exactly(n):
        d = f.read(n)
        if len(d) < n:
            os._exit(0)
        return d
    while True:
        buf = exactly(struct.unpack("<I", exactly(4))[0])
        pos = 0
        while pos < len(buf):
            n, = struct.unpack_from("<I", buf, pos)
            pos += 4
            a = []
            for _ in range(n):
                k, = struct.unpack_from("<I", buf, pos)
                a.append(buf[pos + 4:pos + 4 + k].decode("utf-8", "surrogateescape"))
                pos += 4 + k
            signal.alarm(limit)
            try:
                r = execute(a)
            except Exception as e:
                r = ["exception", "%s: %s" % (type(e).__name__, e)]
            signal.alarm(0)
            r = [enc(x) for x in r]
            out = struct.pack("<I", len(r)) + b"".join(struct.pack("<I", len(x)) + x for x in r)
            while out:
                out = out[os.write(4, out):]


main()
