// Driver: exposes the public API of the freshly built parameter-framework over a pipe.
// fd 3: requests (u32 size, then requests: u32 nargs, {u32 len, bytes}*), fd 4: replies (same
// encoding, one per request, flushed one by one).
#include "recsubsys.h"

#include "ElementHandle.h"
#include "ParameterMgrFullConnector.h"
#include "ParameterMgrPlatformConnector.h"
#include "ParameterFramework.h"
#include "Tokenizer.h"
#include "Utility.h"
#include "convert.hpp"

#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <memory>
#include <set>
#include <dirent.h>
#include <mutex>
#include <sstream>
#include <thread>
#include <unistd.h>
#include <map>
#include <string>
#include <vector>

using std::string;
typedef std::vector<string> Args;
typedef std::function<Args(const Args &)> Op;

// Blocks of memory that are in use, when REC_MEM is set: counted, and with REC_MEM=2 remembered.
extern "C" {
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t),
                                              void (*)(const volatile void *)) __attribute__((weak));
size_t __asan_get_alloc_stack(void *, void **, size_t, int *) __attribute__((weak));
void __sanitizer_symbolize_pc(void *, const char *, char *, size_t) __attribute__((weak));
}
namespace mem
{
static std::atomic<long> blocks{0};
static bool tracing = false;
static std::mutex lock;
static std::set<const volatile void *> *live;
static thread_local bool inside = false;

static void onMalloc(const volatile void *p, size_t)
{
    blocks++;
    if (tracing && !inside) {
        inside = true;
        std::lock_guard<std::mutex> g(lock);
        live->insert(p);
        inside = false;
    }
}
static void onFree(const volatile void *p)
{
    blocks--;
    if (tracing && !inside) {
        inside = true;
        std::lock_guard<std::mutex> g(lock);
        live->erase(p);
        inside = false;
    }
}
static void init()
{
    const char *want = getenv("REC_MEM");
    if (want == nullptr || __sanitizer_install_malloc_and_free_hooks == nullptr) {
        return;
    }
    live = new std::set<const volatile void *>;
    __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
}
static long entries(const char *dir)
{
    DIR *d = opendir(dir);
    long n = 0;
    while (d != nullptr && readdir(d) != nullptr) {
        n++;
    }
    if (d != nullptr) {
        closedir(d);
    }
    return n;
}
// Where the blocks remembered come from.
static string report()
{
    inside = true;
    string out;
    int n = 0;
    for (auto p : *live) {
        void *pcs[12];
        int tid;
        size_t k = __asan_get_alloc_stack(const_cast<void *>(p), pcs, 12, &tid);
        out += "block:";
        for (size_t i = 1; i < k; i++) {
            char buf[300] = "";
            __sanitizer_symbolize_pc(pcs[i], "%f", buf, sizeof buf);
            string f = buf;
            out += " < " + f.substr(0, std::min(f.find('('), size_t(80)));
        }
        out += "\n";
        if (++n == 3) {
            break;
        }
    }
    inside = false;
    return out;
}
}

static bool readAll(int fd, void *p, size_t n)
{
    char *c = static_cast<char *>(p);
    while (n) {
        ssize_t r = read(fd, c, n);
        if (r <= 0) {
            return false;
        }
        c += r;
        n -= size_t(r);
    }
    return true;
}
static void writeAll(int fd, const string &s)
{
    const char *c = s.data();
    size_t n = s.size();
    while (n) {
        ssize_t r = write(fd, c, n);
        if (r <= 0) {
            _exit(9);
        }
        c += r;
        n -= size_t(r);
    }
}
static void put32(string &s, size_t v)
{
    uint32_t u = uint32_t(v);
    s.append(reinterpret_cast<char *>(&u), 4);
}

struct Logger : CParameterMgrPlatformConnector::ILogger
{
    std::mutex lock;
    std::vector<string> lines;
    bool keep = true;
    void add(const char *p, const string &l)
    {
        // no lock when nothing is kept: it would hide races
        if (!keep) {
            return;
        }
        std::lock_guard<std::mutex> g(lock);
        if (lines.size() < 5000) {
            lines.push_back(p + l);
        }
    }
    void info(const string &l) override { add("I ", l); }
    void warning(const string &l) override { add("W ", l); }
};

struct Instance
{
    Logger logger;
    std::unique_ptr<CParameterMgrFullConnector> mgr;
    std::unique_ptr<CommandHandlerInterface> cmd;
    std::map<string, std::unique_ptr<ElementHandle>> handles;
    std::map<string, ISelectionCriterionTypeInterface *> types;
    ~Instance()
    {
        handles.clear();
        cmd.reset();
        mgr.reset();
    }
};

static std::map<string, std::unique_ptr<Instance>> instances;

struct CInst
{
    PfwHandler *h = nullptr;
    std::map<string, PfwParameterHandler *> params;
    Args logs;
};
static std::map<string, CInst> cinsts;

static Instance &inst(const string &slot)
{
    auto it = instances.find(slot);
    if (it == instances.end()) {
        fprintf(stderr, "HARNESS: no instance %s\n", slot.c_str());
        _exit(8);
    }
    return *it->second;
}
static CInst &cinst(const string &slot)
{
    auto it = cinsts.find(slot);
    if (it == cinsts.end()) {
        fprintf(stderr, "HARNESS: no C instance %s\n", slot.c_str());
        _exit(8);
    }
    return it->second;
}
static string b2s(bool b)
{
    return b ? "1" : "0";
}
static string hexf(double d)
{
    char buf[64];
    snprintf(buf, sizeof buf, "%a", d);
    return buf;
}
static Args join(const Args &in)
{
    return in;
}

template <class T>
string show(const T &v)
{
    return std::to_string(v);
}
template <>
string show(const double &v)
{
    return hexf(v);
}
template <>
string show(const string &v)
{
    return v;
}
template <>
string show(const bool &v)
{
    return v ? "1" : "0";
}
template <class T>
T parse(const string &s);
template <>
bool parse<bool>(const string &s)
{
    return s == "1";
}
template <>
uint32_t parse<uint32_t>(const string &s)
{
    return uint32_t(strtoull(s.c_str(), nullptr, 0));
}
template <>
int32_t parse<int32_t>(const string &s)
{
    return int32_t(strtoll(s.c_str(), nullptr, 0));
}
template <>
double parse<double>(const string &s)
{
    return strtod(s.c_str(), nullptr);
}
template <>
string parse<string>(const string &s)
{
    return s;
}
template <class T>
std::vector<T> parseV(const Args &a, size_t from)
{
    std::vector<T> v;
    for (size_t i = from; i < a.size(); i++) {
        v.push_back(parse<T>(a[i]));
    }
    return v;
}
template <class T>
Args ret(bool ok, const T &value, const string &error)
{
    return {b2s(ok), ok ? show<T>(value) : "", error};
}
template <class T>
Args retV(bool ok, const std::vector<T> &values, const string &error)
{
    Args r{b2s(ok), error};
    if (ok) {
        for (size_t i = 0; i < values.size(); i++) {
            T v = values[i];
            r.push_back(show<T>(v));
        }
    }
    return r;
}

static Args handleOp(ElementHandle &h, const string &op, const Args &a, size_t i)
{
    string e;
    auto arg = [&](size_t k) { return i + k < a.size() ? a[i + k] : string(); };
#define SCALAR(NAME, T)                                                                            \
    if (op == "set" #NAME) {                                                                       \
        bool ok = h.setAs##NAME(parse<T>(arg(0)), e);                                              \
        return {b2s(ok), "", e};                                                                   \
    }                                                                                              \
    if (op == "get" #NAME) {                                                                       \
        T v{};                                                                                     \
        bool ok = h.getAs##NAME(v, e);                                                             \
        return ret<T>(ok, v, e);                                                                   \
    }                                                                                              \
    if (op == "set" #NAME "Array") {                                                               \
        bool ok = h.setAs##NAME##Array(parseV<T>(a, i), e);                                        \
        return {b2s(ok), "", e};                                                                   \
    }                                                                                              \
    if (op == "get" #NAME "Array") {                                                               \
        std::vector<T> v;                                                                          \
        bool ok = h.getAs##NAME##Array(v, e);                                                      \
        return retV<T>(ok, v, e);                                                                  \
    }
    SCALAR(Boolean, bool)
    SCALAR(Integer, uint32_t)
    SCALAR(SignedInteger, int32_t)
    SCALAR(Double, double)
    SCALAR(String, string)
    if (op == "getBytes") {
        std::vector<uint8_t> v;
        bool ok = h.getAsBytes(v, e);
        return {b2s(ok), string(v.begin(), v.end()), e};
    }
    if (op == "setBytes") {
        string s = arg(0);
        bool ok = h.setAsBytes(std::vector<uint8_t>(s.begin(), s.end()), e);
        return {b2s(ok), "", e};
    }
    if (op == "getXML") {
        string v;
        bool ok = h.getAsXML(v, e);
        return {b2s(ok), v, e};
    }
    if (op == "setXML") {
        bool ok = h.setAsXML(arg(0), e);
        return {b2s(ok), "", e};
    }
    if (op == "info") {
        Args r{"1",
               h.getName(),
               h.getPath(),
               h.getKind(),
               std::to_string(h.getSize()),
               b2s(h.isParameter()),
               b2s(h.isRogue()),
               b2s(h.isArray()),
               std::to_string(h.getArrayLength()),
               h.getDescription()};
        for (auto &c : h.getChildren()) {
            r.push_back(c.getName());
        }
        return r;
    }
    if (op == "mapping") {
        string v;
        bool ok = h.getMappingData(arg(0), v);
        return {b2s(ok), v, ""};
    }
    if (op == "structure") {
        string v;
        bool ok = h.getStructureAsXML(v, e);
        return {b2s(ok), v, e};
    }
    fprintf(stderr, "HARNESS: unknown handle op %s\n", op.c_str());
    _exit(8);
}

template <class T>
static Args conv(const string &s)
{
    T v{};
    if (!convertTo(s, v)) {
        return {"0", ""};
    }
    std::ostringstream o;
    if (std::is_floating_point<T>::value) {
        return {"1", hexf(double(v))};
    }
    if (std::is_signed<T>::value) {
        o << (long long)(v);
    } else {
        o << (unsigned long long)(v);
    }
    return {"1", o.str()};
}

static std::map<string, Op> makeOps();
static Args runThreads(const Args &a);

static Args execute(const std::map<string, Op> &ops, const Args &a)
{
    auto it = ops.find(a.at(0));
    if (it == ops.end()) {
        fprintf(stderr, "HARNESS: unknown op %s\n", a[0].c_str());
        _exit(8);
    }
    return it->second(a);
}

static void cLog(void *ctx, PfwLogLevel level, const char *line)
{
    static_cast<Args *>(ctx)->push_back(
        string(level == pfwLogInfo ? "I " : level == pfwLogWarning ? "W " : "? ") + line);
}

static std::map<string, Op> makeOps()
{
    std::map<string, Op> o;
    typedef const Args &A;
    o["reset"] = [](A) {
        for (auto &c : cinsts) {
            for (auto &p : c.second.params) {
                pfwUnbindParameter(p.second);
            }
            if (c.second.h) {
                pfwDestroy(c.second.h);
            }
        }
        cinsts.clear();
        instances.clear();
        auto *s = rec::recState();
        std::lock_guard<std::mutex> g(s->lock);
        s->events.clear();
        s->backend.clear();
        s->failWrite.clear();
        s->failRead.clear();
        s->readable.clear();
        s->dead.clear();
        s->resync.clear();
        s->plugs.clear();
        s->loaded.clear();
        s->record = true;
        return Args{"1"};
    };
    o["mem"] = [](A a) {
        // "on", "off": remember blocks from now on, or no more
        string what;
        if (a.size() > 1 && mem::live != nullptr) {
            if (a[1] == "off") {
                mem::tracing = false;
                what = mem::report();
                mem::live->clear();
            }
        }
        Args r{std::to_string(mem::blocks.load()), std::to_string(mem::entries("/proc/self/fd")),
               std::to_string(mem::entries("/proc/self/task")), what};
        if (a.size() > 1 && a[1] == "on") {
            mem::tracing = true;
        }
        return r;
    };
    o["new"] = [](A a) {
        auto i = std::unique_ptr<Instance>(new Instance);
        i->mgr.reset(new CParameterMgrFullConnector(a.at(2)));
        i->mgr->setForceNoRemoteInterface(true);
        i->mgr->setLogger(&i->logger);
        instances[a.at(1)] = std::move(i);
        return Args{"1"};
    };
    o["del"] = [](A a) {
        instances.erase(a.at(1));
        return Args{"1"};
    };
    o["opt"] = [](A a) {
        auto &m = *inst(a.at(1)).mgr;
        bool v = a.at(3) == "1";
        string e;
        bool ok = true;
        if (a[2] == "noremote") {
            m.setForceNoRemoteInterface(v);
        } else if (a[2] == "failMissing") {
            ok = m.CParameterMgrPlatformConnector::setFailureOnMissingSubsystem(v, e);
        } else if (a[2] == "failSettings") {
            ok = m.CParameterMgrPlatformConnector::setFailureOnFailedSettingsLoad(v, e);
        } else if (a[2] == "validate") {
            ok = m.CParameterMgrPlatformConnector::setValidateSchemasOnStart(v, e);
        } else if (a[2] == "schema") {
            m.setSchemaUri(a[3]);
        } else if (a[2] == "keeplog") {
            inst(a[1]).logger.keep = v;
        }
        return Args{b2s(ok), e};
    };
    o["getopts"] = [](A a) {
        auto &m = *inst(a.at(1)).mgr;
        return Args{"1", b2s(m.getForceNoRemoteInterface()), b2s(m.getFailureOnMissingSubsystem()),
                    b2s(m.getFailureOnFailedSettingsLoad()), b2s(m.getValidateSchemasOnStart()),
                    m.getSchemaUri(), b2s(m.isStarted())};
    };
    // criteria
    o["ctype"] = [](A a) {
        auto &i = inst(a.at(1));
        i.types[a.at(2)] = i.mgr->createSelectionCriterionType(a.at(3) == "1");
        return Args{"1"};
    };
    o["cadd"] = [](A a) {
        string e;
        bool ok = inst(a.at(1)).types.at(a.at(2))->addValuePair(parse<int32_t>(a.at(3)), a.at(4), e);
        return Args{b2s(ok), e};
    };
    o["cnum"] = [](A a) {
        int v = 0;
        bool ok = inst(a.at(1)).types.at(a.at(2))->getNumericalValue(a.at(3), v);
        return Args{b2s(ok), ok ? std::to_string(v) : ""};
    };
    o["clit"] = [](A a) {
        string v;
        bool ok = inst(a.at(1)).types.at(a.at(2))->getLiteralValue(parse<int32_t>(a.at(3)), v);
        return Args{b2s(ok), ok ? v : ""};
    };
    o["cfmt"] = [](A a) {
        return Args{"1", inst(a.at(1)).types.at(a.at(2))->getFormattedState(parse<int32_t>(a.at(3))),
                    b2s(inst(a[1]).types.at(a[2])->isTypeInclusive())};
    };
    o["crit"] = [](A a) {
        auto &i = inst(a.at(1));
        auto *c = i.mgr->createSelectionCriterion(a.at(2), i.types.at(a.at(3)));
        return Args{b2s(c != nullptr), c ? c->getCriterionName() : ""};
    };
    o["cset"] = [](A a) {
        auto *c = inst(a.at(1)).mgr->getSelectionCriterion(a.at(2));
        if (!c) {
            return Args{"0"};
        }
        c->setCriterionState(parse<int32_t>(a.at(3)));
        return Args{"1"};
    };
    o["cget"] = [](A a) {
        auto *c = inst(a.at(1)).mgr->getSelectionCriterion(a.at(2));
        if (!c) {
            return Args{"0"};
        }
        return Args{"1", std::to_string(c->getCriterionState()), c->getCriterionName(),
                    c->getCriterionType()->getFormattedState(c->getCriterionState()),
                    b2s(c->getCriterionType()->isTypeInclusive())};
    };
    o["start"] = [](A a) {
        string e;
        auto &i = inst(a.at(1));
        bool ok = i.mgr->start(e);
        if (ok) {
            i.cmd.reset(i.mgr->createCommandHandler());
        }
        return Args{b2s(ok), e};
    };
    o["apply"] = [](A a) {
        inst(a.at(1)).mgr->applyConfigurations();
        return Args{"1"};
    };
    o["cmd"] = [](A a) {
        auto &i = inst(a.at(1));
        if (!i.cmd) {
            return Args{"0", "HARNESS not started"};
        }
        string out;
        bool ok = i.cmd->process(a.at(2), Args(a.begin() + 3, a.end()), out);
        return Args{b2s(ok), out};
    };
    o["mget"] = [](A a) {
        auto &m = *inst(a.at(1)).mgr;
        Args r{"1"};
        for (size_t k = 2; k < a.size(); k++) {
            string v, e;
            bool ok = m.accessParameterValue(a[k], v, false, e);
            r.push_back(b2s(ok));
            r.push_back(ok ? v : e);
        }
        return r;
    };
    o["cmget"] = [](A a) {
        // slot, {domain, conf, path}*
        auto &m = *inst(a.at(1)).mgr;
        Args r{"1"};
        for (size_t k = 2; k + 2 < a.size(); k += 3) {
            string v, e;
            bool ok = m.accessConfigurationValue(a[k], a[k + 1], a[k + 2], v, false, e);
            r.push_back(b2s(ok));
            r.push_back(ok ? v : e);
        }
        return r;
    };
    o["api"] = [](A a) {
        auto &m = *inst(a.at(1)).mgr;
        const string &f = a.at(2);
        auto s = [&](size_t k) { return 3 + k < a.size() ? a[3 + k] : string(); };
        auto b = [&](size_t k) { return s(k) == "1"; };
        string e;
        bool ok;
        if (f == "setTuningMode") {
            ok = m.setTuningMode(b(0), e);
        } else if (f == "isTuningModeOn") {
            return Args{"1", b2s(m.isTuningModeOn())};
        } else if (f == "setValueSpace") {
            m.setValueSpace(b(0));
            return Args{"1", b2s(m.isValueSpaceRaw())};
        } else if (f == "setOutputRawFormat") {
            m.setOutputRawFormat(b(0));
            return Args{"1", b2s(m.isOutputRawFormatHex())};
        } else if (f == "getFormats") {
            return Args{"1", b2s(m.isValueSpaceRaw()), b2s(m.isOutputRawFormatHex()),
                        b2s(m.isAutoSyncOn()), b2s(m.isTuningModeOn())};
        } else if (f == "setAutoSync") {
            ok = m.setAutoSync(b(0), e);
        } else if (f == "sync") {
            ok = m.sync(e);
        } else if (f == "setParameter") {
            string v = s(1);
            ok = m.accessParameterValue(s(0), v, true, e);
        } else if (f == "getParameter") {
            string v;
            ok = m.accessParameterValue(s(0), v, false, e);
            return Args{b2s(ok), ok ? v : e};
        } else if (f == "setConfigurationParameter") {
            string v = s(3);
            ok = m.accessConfigurationValue(s(0), s(1), s(2), v, true, e);
        } else if (f == "getConfigurationParameter") {
            string v;
            ok = m.accessConfigurationValue(s(0), s(1), s(2), v, false, e);
            return Args{b2s(ok), ok ? v : e};
        } else if (f == "getParameterMapping") {
            string v;
            ok = m.getParameterMapping(s(0), v);
            return Args{b2s(ok), v};
        } else if (f == "createDomain") {
            ok = m.createDomain(s(0), e);
        } else if (f == "deleteDomain") {
            ok = m.deleteDomain(s(0), e);
        } else if (f == "renameDomain") {
            ok = m.renameDomain(s(0), s(1), e);
        } else if (f == "deleteAllDomains") {
            ok = m.deleteAllDomains(e);
        } else if (f == "setSequenceAwareness") {
            ok = m.setSequenceAwareness(s(0), b(1), e);
        } else if (f == "getSequenceAwareness") {
            bool v = false;
            ok = m.getSequenceAwareness(s(0), v, e);
            return Args{b2s(ok), ok ? b2s(v) : e};
        } else if (f == "createConfiguration") {
            ok = m.createConfiguration(s(0), s(1), e);
        } else if (f == "deleteConfiguration") {
            ok = m.deleteConfiguration(s(0), s(1), e);
        } else if (f == "renameConfiguration") {
            ok = m.renameConfiguration(s(0), s(1), s(2), e);
        } else if (f == "restoreConfiguration") {
            CParameterMgrFullConnector::Results r;
            ok = m.restoreConfiguration(s(0), s(1), r);
            Args out{b2s(ok), ""};
            for (auto &l : r) {
                out.push_back(l);
            }
            return out;
        } else if (f == "saveConfiguration") {
            ok = m.saveConfiguration(s(0), s(1), e);
        } else if (f == "addElement") {
            ok = m.addConfigurableElementToDomain(s(0), s(1), e);
        } else if (f == "removeElement") {
            ok = m.removeConfigurableElementFromDomain(s(0), s(1), e);
        } else if (f == "splitDomain") {
            ok = m.split(s(0), s(1), e);
        } else if (f == "setElementSequence") {
            ok = m.setElementSequence(s(0), s(1), Args(a.begin() + 5, a.end()), e);
        } else if (f == "setRule") {
            ok = m.setApplicationRule(s(0), s(1), s(2), e);
        } else if (f == "getRule") {
            string v;
            ok = m.getApplicationRule(s(0), s(1), v);
            return Args{b2s(ok), v};
        } else if (f == "clearRule") {
            ok = m.clearApplicationRule(s(0), s(1), e);
        } else if (f == "importDomains") {
            ok = m.importDomainsXml(s(0), b(1), b(2), e);
        } else if (f == "importDomain") {
            ok = m.importSingleDomainXml(s(0), b(1), b(2), b(3), e);
        } else if (f == "exportDomains") {
            string dest = s(0);
            ok = m.exportDomainsXml(dest, b(1), b(2), e);
            return Args{b2s(ok), ok ? dest : e};
        } else if (f == "exportDomain") {
            string dest = s(0);
            ok = m.exportSingleDomainXml(dest, s(1), b(2), b(3), e);
            return Args{b2s(ok), ok ? dest : e};
        } else {
            fprintf(stderr, "HARNESS: unknown api %s\n", f.c_str());
            _exit(8);
        }
        return Args{b2s(ok), e};
    };
    // handles
    o["hnew"] = [](A a) {
        // slot, name, path, kind
        auto &i = inst(a.at(1));
        string e;
        std::unique_ptr<ElementHandle> h;
        if (a.at(4) == "p") {
            h.reset(i.mgr->createParameterHandle(a.at(3), e));
        } else {
            h.reset(i.mgr->createElementHandle(a.at(3), e));
        }
        bool ok = h != nullptr;
        if (ok) {
            i.handles[a.at(2)] = std::move(h);
        }
        return Args{b2s(ok), e};
    };
    o["h"] = [](A a) {
        auto &i = inst(a.at(1));
        auto it = i.handles.find(a.at(2));
        if (it == i.handles.end()) {
            return Args{"0", "", "HARNESS no handle"};
        }
        return handleOp(*it->second, a.at(3), a, 4);
    };
    o["hpath"] = [](A a) {
        // one shot: slot, path, op, args
        auto &i = inst(a.at(1));
        string e;
        std::unique_ptr<ElementHandle> h(i.mgr->createElementHandle(a.at(2), e));
        if (!h) {
            return Args{"0", "", "nohandle " + e};
        }
        return handleOp(*h, a.at(3), a, 4);
    };
    o["hmbytes"] = [](A a) {
        auto &i = inst(a.at(1));
        Args r{"1"};
        for (size_t k = 2; k < a.size(); k++) {
            string e;
            std::unique_ptr<ElementHandle> h(i.mgr->createElementHandle(a[k], e));
            std::vector<uint8_t> v;
            if (h) {
                h->getAsBytes(v, e);
            }
            r.push_back(string(v.begin(), v.end()));
        }
        return r;
    };
    o["log"] = [](A a) {
        auto &l = inst(a.at(1)).logger;
        std::lock_guard<std::mutex> g(l.lock);
        Args r{"1"};
        r.insert(r.end(), l.lines.begin(), l.lines.end());
        l.lines.clear();
        return r;
    };
    // recording plug-in
    o["rtake"] = [](A) {
        auto *s = rec::recState();
        std::lock_guard<std::mutex> g(s->lock);
        Args r{"1"};
        for (auto &e : s->events) {
            r.push_back(string(1, e.what));
            r.push_back(e.path);
            r.push_back(e.a);
            r.push_back(e.b);
            r.push_back(e.c);
            r.push_back(b2s(e.ok));
        }
        s->events.clear();
        return r;
    };
    o["plugs"] = [](A a) {
        // "clear", or: mark, throws, number of types, types, marks needed
        auto *s = rec::recState();
        std::lock_guard<std::mutex> g(s->lock);
        if (a.at(1) == "clear") {
            s->plugs.clear();
            s->loaded.clear();
            return Args{"1"};
        }
        size_t n = std::stoul(a.at(3));
        s->plugs[a[1]] = {a.at(2) == "1", {a.begin() + 4, a.begin() + 4 + n}, {a.begin() + 4 + n, a.end()}};
        return Args{"1"};
    };
    o["rfault"] = [](A a) {
        // kind, on/off, path
        auto *s = rec::recState();
        std::lock_guard<std::mutex> g(s->lock);
        auto &set = a.at(1) == "failWrite"
                        ? s->failWrite
                        : a[1] == "failRead" ? s->failRead
                                             : a[1] == "readable" ? s->readable
                                                                  : a[1] == "dead" ? s->dead : s->resync;
        if (a.at(2) == "1") {
            set.insert(a.at(3));
        } else {
            set.erase(a.at(3));
        }
        return Args{"1"};
    };
    o["rset"] = [](A a) {
        auto *s = rec::recState();
        std::lock_guard<std::mutex> g(s->lock);
        s->backend[a.at(1)] = a.at(2);
        return Args{"1"};
    };
    o["rget"] = [](A) {
        auto *s = rec::recState();
        std::lock_guard<std::mutex> g(s->lock);
        Args r{"1"};
        for (auto &e : s->backend) {
            r.push_back(e.first);
            r.push_back(e.second);
        }
        return r;
    };
    o["rrecord"] = [](A a) {
        rec::recState()->record = a.at(1) == "1";
        return Args{"1"};
    };
    // utilities
    o["utok"] = [](A a) {
        Args r{"1"};
        std::vector<string> v;
        if (a.at(2) == "") {
            v = Tokenizer(a.at(1)).split();
        } else {
            v = Tokenizer(a.at(1), a.at(2), a.at(3) == "1").split();
        }
        r.insert(r.end(), v.begin(), v.end());
        return r;
    };
    o["uconv"] = [](A a) {
        const string &t = a.at(1), &s = a.at(2);
        if (t == "bool") return conv<bool>(s);
        if (t == "i8") return conv<signed char>(s);
        if (t == "u8") return conv<unsigned char>(s);
        if (t == "i16") return conv<short>(s);
        if (t == "u16") return conv<unsigned short>(s);
        if (t == "i32") return conv<int>(s);
        if (t == "u32") return conv<unsigned int>(s);
        if (t == "i64") return conv<long long>(s);
        if (t == "u64") return conv<unsigned long long>(s);
        if (t == "l") return conv<long>(s);
        if (t == "ul") return conv<unsigned long>(s);
        if (t == "f") return conv<float>(s);
        return conv<double>(s);
    };
    o["ujoin"] = [](A a) {
        return Args{"1", utility::asString(Args(a.begin() + 2, a.end()), a.at(1))};
    };
    o["ujoinmap"] = [](A a) {
        std::map<string, string> m;
        for (size_t k = 3; k + 1 < a.size(); k += 2) {
            m[a[k]] = a[k + 1];
        }
        return Args{"1", utility::asString(m, a.at(1), a.at(2))};
    };
    o["uhex"] = [](A a) { return Args{"1", b2s(utility::isHexadecimal(a.at(1)))}; };
    o["utitle"] = [](A a) {
        string s = a.at(1);
        utility::appendTitle(s, a.at(2));
        return Args{"1", s};
    };
    // C interface
    o["Ccreate"] = [](A a) {
        cinsts[a.at(1)].h = pfwCreate();
        return Args{b2s(cinsts[a[1]].h != nullptr), pfwGetLastError(cinsts[a[1]].h)};
    };
    o["Cdestroy"] = [](A a) {
        auto &c = cinst(a.at(1));
        for (auto &p : c.params) {
            pfwUnbindParameter(p.second);
        }
        pfwDestroy(c.h);
        cinsts.erase(a[1]);
        return Args{"1"};
    };
    o["Cstart"] = [](A a) {
        // slot, config, log (0: no callback, 1: callback, 2: no logger), then
        // {name (\x01: NULL), inclusive, nvalues (-1: NULL), values...}*
        auto &c = cinst(a.at(1));
        std::vector<std::unique_ptr<std::vector<const char *>>> vals;
        std::vector<PfwCriterion> crit;
        for (size_t k = 4; k < a.size();) {
            PfwCriterion p;
            p.name = a[k] == "\x01" ? nullptr : a[k].c_str();
            p.inclusive = a.at(k + 1) == "1";
            bool none = a.at(k + 2) == "-1";
            size_t n = none ? 0 : size_t(atoi(a.at(k + 2).c_str()));
            vals.emplace_back(new std::vector<const char *>);
            for (size_t j = 0; j < n; j++) {
                vals.back()->push_back(a.at(k + 3 + j).c_str());
            }
            vals.back()->push_back(nullptr);
            p.values = none ? nullptr : vals.back()->data();
            crit.push_back(p);
            k += 3 + n;
        }
        PfwLogger logger = {&c.logs, a.at(3) == "1" ? cLog : nullptr};
        PfwCriterion dummy{};
        bool ok = pfwStart(c.h, a.at(2).c_str(), crit.empty() ? &dummy : crit.data(), crit.size(),
                           a.at(3) == "2" ? nullptr : &logger);
        return Args{b2s(ok), pfwGetLastError(c.h)};
    };
    o["Clog"] = [](A a) {
        auto &c = cinst(a.at(1));
        Args r{"1"};
        r.insert(r.end(), c.logs.begin(), c.logs.end());
        c.logs.clear();
        return r;
    };
    o["Cset"] = [](A a) {
        auto &c = cinst(a.at(1));
        bool ok = pfwSetCriterion(c.h, a.at(2).c_str(), parse<int32_t>(a.at(3)));
        return Args{b2s(ok), pfwGetLastError(c.h)};
    };
    o["Cget"] = [](A a) {
        auto &c = cinst(a.at(1));
        int v = 0;
        bool ok = pfwGetCriterion(c.h, a.at(2).c_str(), &v);
        return Args{b2s(ok), pfwGetLastError(c.h), ok ? std::to_string(v) : ""};
    };
    o["Capply"] = [](A a) {
        auto &c = cinst(a.at(1));
        bool ok = pfwApplyConfigurations(c.h);
        return Args{b2s(ok), pfwGetLastError(c.h)};
    };
    o["Cbind"] = [](A a) {
        auto &c = cinst(a.at(1));
        auto *p = pfwBindParameter(c.h, a.at(3).c_str());
        if (p) {
            auto it = c.params.find(a.at(2));
            if (it != c.params.end()) {
                pfwUnbindParameter(it->second);
            }
            c.params[a[2]] = p;
        }
        return Args{b2s(p != nullptr), pfwGetLastError(c.h)};
    };
    o["Cunbind"] = [](A a) {
        auto &c = cinst(a.at(1));
        auto it = c.params.find(a.at(2));
        if (it == c.params.end()) {
            return Args{"0", "HARNESS"};
        }
        pfwUnbindParameter(it->second);
        c.params.erase(it);
        return Args{"1", pfwGetLastError(c.h)};
    };
    o["Cp"] = [](A a) {
        // slot, param, op, value
        auto &c = cinst(a.at(1));
        auto it = c.params.find(a.at(2));
        if (it == c.params.end()) {
            return Args{"-", "", ""};
        }
        const string &f = a.at(3);
        bool ok;
        string out;
        if (f == "getint") {
            int32_t v = 0;
            ok = pfwGetIntParameter(it->second, &v);
            out = ok ? std::to_string(v) : "";
        } else if (f == "setint") {
            ok = pfwSetIntParameter(it->second, parse<int32_t>(a.at(4)));
        } else if (f == "getstr") {
            char *v = reinterpret_cast<char *>(1);
            ok = pfwGetStringParameter(it->second, &v);
            if (ok) {
                out = v;
                pfwFree(v);
            } else {
                out = v == nullptr ? "" : "notnull";
            }
        } else {
            ok = pfwSetStringParameter(it->second, a.at(4).c_str());
        }
        return Args{b2s(ok), pfwGetLastError(c.h), out};
    };
    o["threads"] = runThreads;
    o["setenv"] = [](A a) {
        setenv(a.at(1).c_str(), a.at(2).c_str(), 1);
        return Args{"1"};
    };
    o["ping"] = [](A a) { return join(a); };
    return o;
}

// What depends on the round in an argument: {#} its number, {%m} its remainder, {@n} n times its
// letter, {!n} n times its byte.
static string expand(const string &t, int round)
{
    string out;
    for (size_t k = 0; k < t.size();) {
        size_t end = t[k] == '{' ? t.find('}', k) : string::npos;
        if (end == string::npos) {
            out += t[k++];
            continue;
        }
        int n = atoi(t.c_str() + k + 2);
        switch (t[k + 1]) {
        case '#':
            out += std::to_string(round);
            break;
        case '%':
            out += std::to_string(round % n);
            break;
        case '@':
            out += string(size_t(n), char('a' + round % 26));
            break;
        case '!':
            out += string(size_t(n), char(round));
            break;
        }
        k = end + 1;
    }
    return out;
}

static string hexBytes(const string &s)
{
    static const char *digits = "0123456789abcdef";
    string out;
    for (unsigned char c : s) {
        out += digits[c >> 4];
        out += digits[c & 15];
    }
    return out;
}

// Concurrent programs: args: "threads", slot, rounds, then per thread: "T", and per op: "o", nargs,
// args...  Ops: apply | cset name v | hset path op values.. | hget path op | hone path op values..
// | pget path | pset path v | cmd command args... | tune 0/1 | yield. All threads start together;
// each reports "op number, round, results" of the operations that give any.
static Args runThreads(const Args &a)
{
    auto &i = inst(a.at(1));
    int rounds = atoi(a.at(2).c_str());
    struct Prog
    {
        std::vector<Args> ops;
        std::vector<std::unique_ptr<ElementHandle>> handles;
        Args out;
    };
    std::vector<Prog> progs;
    for (size_t k = 3; k < a.size();) {
        if (a[k] == "T") {
            progs.emplace_back();
            k += 1;
        } else {
            size_t n = size_t(atoi(a.at(k + 1).c_str()));
            progs.back().ops.emplace_back(a.begin() + long(k) + 2, a.begin() + long(k) + 2 + long(n));
            string e;
            const Args &op = progs.back().ops.back();
            std::unique_ptr<ElementHandle> h;
            if (op[0] == "hset" || op[0] == "hget") {
                h.reset(i.mgr->createElementHandle(op.at(1), e));
            }
            progs.back().handles.push_back(std::move(h));
            k += 2 + n;
        }
    }
    std::atomic<int> ready(0);
    std::atomic<bool> go(false);
    std::vector<std::thread> threads;
    for (auto &p : progs) {
        threads.emplace_back([&] {
            ready++;
            while (!go) {
                std::this_thread::yield();
            }
            for (int r = 1; r <= rounds; r++) {
                for (size_t k = 0; k < p.ops.size(); k++) {
                    const Args &op = p.ops[k];
                    Args res;
                    Args args;
                    for (auto &x : op) {
                        args.push_back(expand(x, r));
                    }
                    if (op[0] == "apply") {
                        i.mgr->applyConfigurations();
                        continue;
                    } else if (op[0] == "cset") {
                        i.mgr->getSelectionCriterion(op.at(1))->setCriterionState(
                            parse<int32_t>(op.at(2)));
                        continue;
                    } else if (op[0] == "pget") {
                        string v, e;
                        bool ok = i.mgr->accessParameterValue(op.at(1), v, false, e);
                        res = {b2s(ok), ok ? v : e};
                    } else if (op[0] == "pset") {
                        string v = args.at(2), e;
                        bool ok = i.mgr->accessParameterValue(op.at(1), v, true, e);
                        res = {b2s(ok), e};
                    } else if (op[0] == "cmd") {
                        string v;
                        bool ok = i.cmd->process(op.at(1), Args(args.begin() + 2, args.end()), v);
                        res = {b2s(ok), v};
                    } else if (op[0] == "tune") {
                        string e;
                        bool ok = i.mgr->setTuningMode(op.at(1) == "1", e);
                        res = {b2s(ok), e};
                    } else if (op[0] == "yield") {
                        std::this_thread::yield();
                        continue;
                    } else {
                        std::unique_ptr<ElementHandle> once;
                        string e;
                        if (op[0] == "hone") {
                            once.reset(i.mgr->createElementHandle(op.at(1), e));
                        }
                        res = handleOp(once ? *once : *p.handles.at(k), op.at(2), args, 3);
                        if (op[2] == "getBytes") {
                            res[1] = hexBytes(res[1]);
                        }
                    }
                    string line = std::to_string(k) + "\x1f" + std::to_string(r);
                    for (auto &x : res) {
                        line += "\x1f" + x;
                    }
                    p.out.push_back(line);
                }
            }
        });
    }
    while (ready < int(progs.size())) {
        std::this_thread::yield();
    }
    go = true;
    for (auto &t : threads) {
        t.join();
    }
    Args r{"1"};
    for (size_t k = 0; k < progs.size(); k++) {
        r.push_back("T" + std::to_string(k));
        r.insert(r.end(), progs[k].out.begin(), progs[k].out.end());
    }
    return r;
}

int main(int argc, char **argv)
{
    mem::init();
    auto ops = makeOps();
    unsigned limit = argc > 1 ? unsigned(atoi(argv[1])) : 20;
    for (;;) {
        uint32_t size;
        if (!readAll(3, &size, 4)) {
            break;
        }
        string buf(size, '\0');
        if (size && !readAll(3, &buf[0], size)) {
            break;
        }
        size_t pos = 0;
        auto get32 = [&] {
            uint32_t v;
            memcpy(&v, &buf[pos], 4);
            pos += 4;
            return v;
        };
        while (pos < buf.size()) {
            Args a(get32());
            for (auto &s : a) {
                uint32_t n = get32();
                s.assign(buf, pos, n);
                pos += n;
            }
            alarm(limit);
            Args r = execute(ops, a);
            alarm(0);
            string out;
            put32(out, r.size());
            for (auto &s : r) {
                put32(out, s.size());
                out += s;
            }
            writeAll(4, out);
        }
    }
    // leave without running destructors of instances left alive
    _exit(0);
}
