// C12: an application whose typed state is saved, and read back after crashes and restarts.
#include "bridge.hpp"
#include "io.hpp"
#include "universe.hpp"

#include <fstream>
#include <sstream>

namespace
{
using namespace sim;
using ref::RV;

enum class End
{
    Done,    // acknowledged
    Crashed, // the process died on the way
    Failed   // an error was reported
};

// Two slots on a disk. A save goes to the slot that is not current; it becomes current when it is complete.
struct Disk
{
    simio::MemFile slot[2];
    int current = -1;
    bool record = true; // a commit record says which slot is current; otherwise the restarted program looks at both

    End save(const json::value& doc, uint64_t form)
    {
        const int to = current == 0 ? 1 : 0;
        simio::sys = {};
        simio::sys.max_write = pick(SIZE_MAX, 1, 5, 100);
        simio::sys.eintr_every = pick(0, 0, 3);
        const uint64_t mishap = chance(1, 3) ? 1 + draw(4) : 0;
        size_t at = draw(1 + draw(2000));
        if (mishap == 1 || mishap == 2) {
            simio::sys.crash_at = at;
        }
        else if (mishap) {
            simio::sys.write_fail_at = at;
            simio::sys.write_errno = mishap == 3 ? 28 : 5;
        }
        std::ofstream os(slot[to].path(), std::ios::out | std::ios::trunc);
        simio::sys.on = true;
        switch (form) {
        case 0:
            os << doc;
            break;
        case 1:
            os << doc.dumps();
            break;
        case 2:
            os << doc.format();
            break;
        case 3:
            os << "\xEF\xBB\xBF" << doc.dumps(2);
            break;
        default:
            os << doc.as_object();
        }
        os.close();
        simio::sys.on = false;
        const bool good = os.good();
        const bool died = (mishap == 1 || mishap == 2) && simio::sys.written > at;
        fault("EINTR on write", simio::sys.eintrs);
        fault("short write", simio::sys.short_writes);
        note("save form %d to slot %d: %zu bytes, %s", (int)form, to, simio::sys.written, died ? "died" : good ? "ok" : "error");
        if (died) {
            fault("crash during save");
            if (draw(3) == 0) { // the length was extended, the data not written
                std::string s = slot[to].get();
                slot[to].put(s + std::string(1 + draw(600), '\0'));
                fault("torn block padded with zeros");
            }
            return End::Crashed;
        }
        if (mishap > 2 && simio::sys.errors) {
            fault(mishap == 3 ? "disk full" : "disk error on write");
            if (good) {
                violate("save", "a disk error was not reported by the stream");
            }
            return End::Failed;
        }
        if (!good) {
            violate("save", "saving failed without a fault");
        }
        if (!record || mishap != 1) {
            current = to;
            return End::Done;
        }
        return End::Done;
    }
    std::optional<json::value> read(int i)
    {
        simio::sys = {};
        simio::sys.max_read = pick(SIZE_MAX, 1, 64, 4096);
        simio::sys.eintr_every = pick(0, 0, 3);
        const uint64_t how = draw(5);
        std::optional<json::value> r;
        if (how < 2) {
            simio::sys.on = true;
            r = json::open(slot[i].path(), true, how == 1);
            simio::sys.on = false;
        }
        else if (how == 2) {
            std::ifstream is(slot[i].path());
            simio::sys.on = true;
            r = json::parse(is, true);
            simio::sys.on = false;
        }
        else {
            std::string s = slot[i].get();
            if (s.compare(0, 3, "\xEF\xBB\xBF") == 0) {
                s.erase(0, 3);
            }
            r = how == 3 ? json::parse(s) : json::parsec(std::string_view(s));
        }
        fault("EINTR on read", simio::sys.eintrs);
        fault("short read", simio::sys.short_reads);
        return r;
    }
    // what a restarted program finds
    std::optional<json::value> boot()
    {
        if (record) {
            return current < 0 ? std::nullopt : read(current);
        }
        std::optional<json::value> best;
        long long rev = -1;
        for (int i = 0; i < 2; ++i) {
            auto r = read(i);
            if (!r) {
                continue;
            }
            const long long n = r->get("rev", -1LL);
            if (n > rev) {
                rev = n;
                best = std::move(r);
                current = i;
            }
        }
        return best;
    }
};

template <typename W>
struct F
{
    using T = typename W::type;
    using Y = typed::Ty<T>;
    using Model = std::map<std::string, RV>; // state entries

    // values that their own document determines
    static RV some(int depth)
    {
        RV r = Y::rv(Y::gen(depth));
        if (Y::conforms(r) == typed::Conf::Yes) {
            return Y::rv(Y::from(r));
        }
        r = Y::rv(Y::gen(0));
        return Y::conforms(r) == typed::Conf::Yes ? Y::rv(Y::from(r)) : Y::rv(T {});
    }
    static void same(const T& got, const RV& want, const std::string& key, const char* how)
    {
        if (!Y::eq(got, Y::from(want))) {
            violate("state", std::string("after the restart \"") + show(key) + "\" read with " + how + " is " + ref::show(Y::rv(got), 400)
                                 + ", the last completed save had " + ref::show(want, 400));
        }
    }
    static void restore(const json::value& entries, const std::string& key, const RV& want)
    {
        const json::value& v = entries.at(key);
        switch (draw(7)) {
        case 0:
            return same(v.as<T>(), want, key, "as");
        case 1:
            if constexpr (!std::is_same_v<T, json::value> && !typed::is_optional_v<T>) {
                return same(static_cast<T>(v), want, key, "a conversion");
            }
            [[fallthrough]];
        case 2: {
            auto r = entries.find<T>(key);
            if (!r) {
                violate("state", "find<T> does not find " + ref::show(want, 300));
            }
            return same(*r, want, key, "find");
        }
        case 3: {
            json::value c = v;
            return same(std::move(c).template as<T>(), want, key, "as of a moved document");
        }
        case 4:
            if constexpr (typed::copyable<T> && !json::_utils::should_return_string<T>) {
                const T def = Y::from(some(1));
                return same(entries.get(key, def), want, key, "get");
            }
            [[fallthrough]];
        case 5:
            if constexpr (typed::copyable<T>) {
                auto all = entries.as<std::map<std::string, T>>();
                return same(all.at(key), want, key, "a map");
            }
            [[fallthrough]];
        default:
            if (!v.is<T>()) {
                violate("state", "is<T>() is false for " + ref::show(want, 300));
            }
            return same(v.as<T>(), want, key, "as");
        }
    }

    static void go()
    {
        static const char* const keys[] = { "main", "", "a \"key\"\n" };
        Disk disk;
        disk.record = draw(2);
        Model durable, mem, unsure;
        bool saved = false, maybe = false; // maybe: the crashed save could have become complete
        long long rev = 0;
        auto boot = [&](const char* why) {
            note("restart after %s", why);
            step();
            auto r = disk.boot();
            if (!r) {
                if (saved) {
                    violate("state", "no state is found after a restart although a save was completed");
                }
                mem.clear();
                return;
            }
            if (!saved && !maybe) {
                violate("state", "a state is found although no save was completed: " + ref::show(bridge::read(*r), 300));
            }
            const json::value& entries = r->at("state");
            const long long n = r->at("rev").as<long long>();
            if (maybe && n == rev) {
                durable = unsure; // the interrupted save was complete
                saved = true;
                probe("interrupted save was complete");
            }
            maybe = false;
            if (!saved) {
                violate("state", "a state is found although no save was completed");
            }
            if (entries.as_object().size() != durable.size()) {
                violate("state", "the restored state has other entries: " + ref::show(bridge::read(*r), 400));
            }
            for (auto& [k, want] : durable) {
                restore(entries, k, want);
            }
            mem = durable;
            probe("state restored");
            nontrivial();
        };
        std::optional<json::value> doc; // the document kept up to date, if the program keeps one
        for (uint64_t n = 4 + draw(8); n--;) {
            step();
            switch (draw(5)) {
            case 0:
            case 1: { // update
                const std::string k = keys[draw(3)];
                if (draw(5) == 0 && mem.count(k)) {
                    note("erase %s", show(k).c_str());
                    mem.erase(k);
                    if (doc) {
                        doc->as_object()["state"].erase(k);
                    }
                    break;
                }
                mem[k] = some(3);
                note("update %s = %s", show(k).c_str(), ref::show(mem[k], 300).c_str());
                state(mix(ref::hash(mem[k]), 12));
                if (doc) {
                    T v = Y::from(mem[k]);
                    (*doc)["state"][k] = v;
                }
                break;
            }
            case 2:
            case 3: { // save
                ++rev;
                json::value out;
                const uint64_t how = draw(4);
                if (doc && how < 3) {
                    (*doc)["rev"] = rev;
                    if (mem.empty()) {
                        (*doc)["state"] = json::object();
                    }
                    out = *doc;
                }
                else {
                    json::object o;
                    json::object entries;
                    if (how == 0) {
                        if constexpr (typed::copyable<T>) {
                            std::map<std::string, T> m;
                            for (auto& [k, x] : mem) {
                                m.emplace(k, Y::from(x));
                            }
                            entries = json::object(m);
                        }
                        else {
                            for (auto& [k, x] : mem) {
                                entries.emplace(k, Y::from(x));
                            }
                        }
                    }
                    else {
                        for (auto& [k, x] : mem) {
                            T v = Y::from(x);
                            if (how == 1) {
                                entries.emplace(k, v);
                            }
                            else {
                                entries[k] = std::move(v);
                            }
                        }
                    }
                    o.emplace("rev", rev);
                    o.emplace("state", std::move(entries));
                    out = std::move(o);
                    if (draw(2)) {
                        doc = out;
                    }
                }
                const int before = disk.current;
                End e = disk.save(out, draw(5));
                if (e == End::Done && disk.current != before) {
                    durable = mem;
                    saved = true;
                    maybe = false;
                    break;
                }
                if (e == End::Done) { // the process died between the last byte and the commit record
                    fault("crash before the commit record");
                    doc.reset();
                    boot("a crash before the commit record");
                    break;
                }
                if (!disk.record && e == End::Crashed) {
                    unsure = mem;
                    maybe = true; // every byte but trailing white space may have arrived
                }
                if (e == End::Crashed || draw(2)) {
                    doc.reset();
                    boot(e == End::Crashed ? "a crash during a save" : "a failed save");
                }
                else if (!disk.record) {
                    // the slot is now damaged; it will be overwritten by the next save
                }
                break;
            }
            default:
                doc.reset();
                fault("restart");
                boot("a shutdown");
            }
        }
        doc.reset();
        boot("the last shutdown");
        sample("history of saves and restarts of " + (durable.empty() ? std::string("nothing") : ref::show(durable.begin()->second, 120)));
    }
};
} // namespace
template <>
void universe::entry<CHUNK>(size_t i)
{
    call_chunk<F, CHUNK>(All {}, i);
}
