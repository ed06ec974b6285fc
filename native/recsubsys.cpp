#include "recsubsys.h"
#include "FormattedSubsystemObject.h"
#include "InstanceConfigurableElement.h"
#include "LoggingElementBuilderTemplate.h"
#include "MappingContext.h"
#include "Plugin.h"
#include "Subsystem.h"
#include "SubsystemObjectFactory.h"

#ifdef REC_PLUG
#include <stdexcept>

// Each copy of this library has a digit of its own here.
extern "C" __attribute__((visibility("default"))) const char recMark[] = "PLUGID-0";

static std::string mark()
{
    const volatile char *m = recMark;
    return std::string(1, m[7]);
}
#else
namespace rec
{
extern "C" __attribute__((visibility("default"))) State *recState()
{
    static State state;
    return &state;
}
}
#endif

namespace
{
enum Keys
{
    KOwner,
    KA1,
    KA2,
    KA3,
    KNb
};

class Object : public CFormattedSubsystemObject
{
public:
    Object(const std::string &mapping, CInstanceConfigurableElement *element,
           const CMappingContext &context, core::log::Logger &logger)
        : CFormattedSubsystemObject(element, logger, mapping, KA1, KNb - KA1, context)
    {
        auto *s = rec::recState();
        std::lock_guard<std::mutex> guard(s->lock);
        // What the object can learn of its ancestors: by position, by key, and as a number.
        const char *keys[KNb] = {"Owner", "A1", "A2", "A3"};
        std::string seen;
        for (size_t i = 0; i < KNb; i++) {
            const std::string *byKey = context.getItem(keys[i]);
            seen += (context.iSet(i) ? "=" + context.getItem(i) : std::string("-")) + "\x1f";
            seen += (byKey != nullptr ? "=" + *byKey : std::string("-")) + "\x1f";
            seen += std::to_string(context.getItemAsInteger(i)) + "\x1f";
        }
        seen += context.getItem("Own") == nullptr && context.getItem("") == nullptr ? "" : "?";
        s->events.push_back({'C', element->getPath(), mapping, getFormattedMappingValue(), seen, true});
    }

private:
    bool sendToHW(std::string &error) override
    {
        auto *s = rec::recState();
        std::string path = getConfigurableElement()->getPath();
        std::string bytes(getSize(), '\0');
        blackboardRead(&bytes[0], bytes.size());
        std::lock_guard<std::mutex> guard(s->lock);
        bool ok = s->failWrite.count(path) == 0;
        if (ok) {
            s->backend[path] = bytes;
        } else {
            error = "write refused by " + path;
        }
        if (s->record) {
            s->events.push_back({'W', path, bytes, "", "", ok});
        }
        return ok;
    }
    bool receiveFromHW(std::string &error) override
    {
        auto *s = rec::recState();
        std::string path = getConfigurableElement()->getPath();
        std::string bytes;
        bool ok, write = false;
        {
            std::lock_guard<std::mutex> guard(s->lock);
            ok = s->failRead.count(path) == 0 && s->failRead.count("*") == 0;
            if (ok && s->readable.count(path)) {
                bytes = s->backend[path];
                bytes.resize(getSize());
                write = true;
            }
            s->events.push_back({'R', path, "", "", "", ok});
        }
        if (write) {
            blackboardWrite(&bytes[0], bytes.size());
        }
        if (!ok) {
            error = "read refused by " + path;
        }
        return ok;
    }
};

class Subsystem : public CSubsystem
{
public:
    Subsystem(const std::string &name, core::log::Logger &logger) : CSubsystem(name, logger)
    {
#ifdef REC_PLUG
        {
            auto *s = rec::recState();
            std::lock_guard<std::mutex> guard(s->lock);
            s->events.push_back({'B', name, mark(), "", "", true});
        }
#endif
        addContextMappingKey("Owner");
        addContextMappingKey("A1");
        addContextMappingKey("A2");
        addContextMappingKey("A3");
        addSubsystemObjectFactory(new TSubsystemObjectFactory<Object>("Obj", 0));
        addSubsystemObjectFactory(new TSubsystemObjectFactory<Object>("Deep", 1 << KOwner));
        addSubsystemObjectFactory(new TSubsystemObjectFactory<Object>("Duo", 1 << KA1 | 1 << KA3));
        addSubsystemObjectFactory(new TSubsystemObjectFactory<Object>("Small", 0, 4));
    }
    bool isAlive() const override
    {
        auto *s = rec::recState();
        std::lock_guard<std::mutex> guard(s->lock);
        return s->dead.count(getPath()) == 0;
    }
    bool needResync(bool clear) override
    {
        auto *s = rec::recState();
        std::lock_guard<std::mutex> guard(s->lock);
        bool need = s->resync.count(getPath()) != 0;
        if (need && clear) {
            s->resync.erase(getPath());
        }
        return need;
    }
};
}

void PARAMETER_FRAMEWORK_PLUGIN_ENTRYPOINT_V1(CSubsystemLibrary *library, core::log::Logger &logger)
{
#ifdef REC_PLUG
    auto *s = rec::recState();
    std::lock_guard<std::mutex> guard(s->lock);
    auto &plug = s->plugs[mark()];
    if (plug.throws) {
        throw std::runtime_error("no use loading me");
    }
    for (auto &need : plug.needs) {
        if (s->loaded.count(need) == 0) {
            throw std::runtime_error("another plug-in is needed first");
        }
    }
    s->loaded.insert(mark());
    s->events.push_back({'P', mark(), "", "", "", true});
    for (auto &type : plug.types) {
        library->addElementBuilder(type, new TLoggingElementBuilderTemplate<Subsystem>(logger));
    }
#else
    library->addElementBuilder("REC", new TLoggingElementBuilderTemplate<Subsystem>(logger));
#endif
}
