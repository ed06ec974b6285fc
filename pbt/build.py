"""Builds /repo's current working tree with sanitizers, plus the driver and the recording plug-in.

The build directory is keyed by a hash of the content of every source involved, so that an existing
build is reused only for the very same sources.
"""
import fcntl, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
ROOT = os.path.join(VERIF, "_build")
SKIP_DIRS = {".git", "_build", "__pycache__"}
VARIANTS = {
    "asan": "-O0 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined"
            " -fno-sanitize=vptr,function,shift-base -fno-sanitize-recover=all",
    # Python bindings (the interpreter is not built with sanitizers)
    "py": "-O0 -g0",
    "tsan": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread",
}


def _files():
    out = []
    for top in ("CMakeLists.txt", "SetVersion.cmake", "cmake", "parameter", "utility", "xmlserializer",
                "remote-processor", "remote-process", "asio", "bindings/c", "bindings/python", "schemas", "tools", "test",
                "cpack", "ctest", "doc/CMakeLists.txt", "bindings/CMakeLists.txt", "skeleton-subsystem"):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            out.append(p)
        for d, ds, fs in os.walk(p):
            ds[:] = sorted(x for x in ds if x not in SKIP_DIRS)
            out += [os.path.join(d, f) for f in sorted(fs) if not f.endswith(".pyc")]
    nat = os.path.join(VERIF, "native")
    out += [os.path.join(nat, f) for f in sorted(os.listdir(nat))]
    out.append(os.path.abspath(__file__))
    return out


def source_hash(variant):
    h = hashlib.sha256(variant.encode())
    for f in _files():
        h.update(f.encode() + b"\0")
        try:
            with open(f, "rb") as fd:
                h.update(hashlib.sha256(fd.read()).digest())
        except OSError:
            h.update(b"missing")
    return h.hexdigest()[:16]


class Built:
    def __init__(self, d):
        self.dir = d
        self.lib = os.path.join(d, "pf", "lib")
        self.bin = os.path.join(d, "pf", "bin")
        self.driver = os.path.join(d, "driver")
        self.plugin_dir = d
        self.plugin = "librecsubsys.so"


def ensure(variant="asan", quiet=True):
    os.makedirs(ROOT, exist_ok=True)
    with open(os.path.join(ROOT, "lock-" + variant), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        key = source_hash(variant)
        d = os.path.join(ROOT, variant + "-" + key)
        stamp = os.path.join(d, "done")
        if not os.path.exists(stamp):
            for other in os.listdir(ROOT):
                if other.startswith(variant + "-"):
                    shutil.rmtree(os.path.join(ROOT, other), ignore_errors=True)
            _build(variant, d, quiet)
            open(stamp, "w").close()
        return Built(d)


def _env():
    e = dict(os.environ)
    for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "LD_LIBRARY_PATH", "CPATH", "LD_PRELOAD"):
        e.pop(k, None)
    e.update(CC="clang", CXX="clang++", LC_ALL="C.UTF-8")
    return e


class BuildError(Exception):
    pass


def _run(cmd, log, env):
    log.write("$ %s\n" % cmd)
    log.flush()
    return subprocess.Popen(cmd, shell=isinstance(cmd, str), stdout=log, stderr=subprocess.STDOUT, env=env)


def _build(variant, d, quiet):
    t0 = time.time()
    flags = VARIANTS[variant]
    pf = os.path.join(d, "pf")
    os.makedirs(pf)
    env = _env()
    logname = os.path.join(d, "build.log")
    rule = "<CMAKE_CXX_COMPILER> <DEFINES> <INCLUDES> <FLAGS> -Wno-error -w -o <OBJECT> -c <SOURCE>"
    with open(logname, "w") as log:
        def check(p, what):
            if p.wait() != 0:
                log.flush()
                sys.stderr.write(open(logname).read()[-6000:])
                raise BuildError(what)
        check(subprocess.Popen(
            ["cmake", "-S", REPO, "-B", pf, "-G", "Ninja", "-Wno-dev", "-DCMAKE_BUILD_TYPE=Debug",
             "-DBUILD_TESTING=OFF", "-DPYTHON_BINDINGS=" + ("ON" if variant == "py" else "OFF"),
             "-DSWIG_USE_SWIG_DEPENDENCIES=ON", "-DPYTHON_EXECUTABLE=/usr/bin/python3.12", "-DC_BINDINGS=ON", "-DCLIENT_SIMULATOR=OFF",
             "-DBASH_COMPLETION=OFF", "-DFATAL_WARNINGS=OFF", "-DREQUIREMENTS=OFF",
             "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DCMAKE_CXX_COMPILE_OBJECT=" + rule,
             "-DCMAKE_INSTALL_PREFIX=" + os.path.join(d, "install"),
             "-DCMAKE_CXX_FLAGS=" + flags], stdout=log, stderr=subprocess.STDOUT, env=env), "configure")
        inc = " ".join("-I" + x for x in (
            REPO + "/parameter", REPO + "/parameter/include", REPO + "/parameter/log/include",
            REPO + "/utility", REPO + "/xmlserializer", pf + "/parameter", REPO + "/bindings/c",
            pf + "/bindings/c"))
        nat = os.path.join(VERIF, "native")
        cc = "clang++ -std=c++14 -w -fPIC %s %s " % (flags, inc)
        jobs = [_run(cc +
                     "-c %s/recsubsys.cpp -o %s/recsubsys.o" % (nat, d), log, env),
                _run(cc + "-DREC_PLUG -c %s/recsubsys.cpp -o %s/recplug.o" % (nat, d), log, env),
                _run("clang -shared -fPIC -x c /dev/null -o %s/libnoentry.so" % d, log, env),
                _run(cc + "-c %s/driver.cpp -o %s/driver.o" % (nat, d), log, env),
                _run(["ninja", "-C", pf], log, env)]
        for j in jobs:
            check(j, "compile")
        link = "clang++ %s -Wl,-rpath,%s/lib:%s -L%s/lib " % (flags, pf, d, pf)
        check(_run(link + "-shared %s/recsubsys.o -lparameter -o %s/librecsubsys.so" % (d, d), log, env), "plugin")
        check(_run(link + "-shared %s/recplug.o -L%s -lrecsubsys -lparameter -o %s/librecplug.so" % (d, d, d), log, env), "plugin")
        check(_run(link + "%s/driver.o -L%s -lrecsubsys -lparameter -lcparameter %s/utility/libpfw_utility.a"
                   " -ldl -lpthread -o %s/driver" % (d, d, pf, d), log, env), "driver")
    if not quiet:
        print("built %s in %.1fs" % (variant, time.time() - t0))


if __name__ == "__main__":
    for v in sys.argv[1:] or ["asan"]:
        print(ensure(v, quiet=False).dir)
