// Recording subsystem plug-in: control interface used by the driver.
#pragma once
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <vector>

namespace rec
{
struct Event
{
    char what; // C created, W write, R read, P plug-in entered, B subsystem built by a plug-in
    std::string path;
    std::string a, b, c;
    bool ok;
};

struct State
{
    std::mutex lock;
    std::vector<Event> events;
    std::map<std::string, std::string> backend;     // object path -> bytes held by the back end
    std::set<std::string> failWrite;                // object paths refusing writes
    std::set<std::string> failRead;                 // object paths refusing reads
    std::set<std::string> readable;                 // object paths returning the back end bytes
    std::set<std::string> dead;                     // subsystem paths not alive
    std::set<std::string> resync;                   // subsystem paths needing a resync
    bool record = true;

    // what the copies of the plug-in used by the start-up checks do
    struct Plug
    {
        bool throws;
        std::vector<std::string> types, needs;
    };
    std::map<std::string, Plug> plugs;              // by mark
    std::set<std::string> loaded;                   // marks of those that were entered
};

extern "C" State *recState();
}
