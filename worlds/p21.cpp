// C21: the library is used at any time in the life of a program and of its threads.
#include "p21.hpp"

#include <dlfcn.h>
#include <unistd.h>
#include <thread>

namespace
{
using namespace programs;
using p21::When;

p21::Host host;

void run()
{
    Group& w = *new Group; // (outlives everything)
    {
        ref::Gen g;
        g.max_nodes = 10;
        w.model = ref::gen(g, draw(4) != 0);
        w.original = bridge::plain(w.model);
        note("original = %s", ref::show(w.model, 600).c_str());
    }
    const size_t n = 1 + draw(tier() ? 7 : 5);
    w.threads.resize(n);
    draw_habit(w);
    const size_t common_type = draw(universe::types);
    std::vector<When> when;
    host = { &w, {}, {}, [](const char* what) { fault(what); } };
    uint64_t h = 21;
    for (size_t t = 0; t < n; ++t) {
        draw_program(w, t, false, common_type);
        for (Item& it : w.threads[t].items) {
            if (it.what == What::Convert || it.what == What::Receive) {
                it.fail_at = 0; // (C06 does that)
            }
        }
        when.push_back(static_cast<When>(draw(static_cast<uint64_t>(When::N))));
        h = mix(h, static_cast<uint64_t>(when[t]));
        note("program %zu is number %d", t, static_cast<int>(when[t]));
        if (when[t] == When::StaticInit) {
            host.at_init.push_back(t);
        }
        if (when[t] == When::StaticEnd) {
            host.at_end.push_back(t);
        }
    }
    std::string dir(4096, 0);
    dir.resize(static_cast<size_t>(std::max<ssize_t>(0, readlink("/proc/self/exe", dir.data(), dir.size()))));
    dir.resize(dir.rfind('/'));
    void* plugin = dlopen((dir + "/plugin.so").c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!plugin) {
        fatal("harness", dlerror());
    }
    const auto act = reinterpret_cast<p21::Do>(dlsym(plugin, "p21_do"));
    std::vector<bool> done(n);
    for (size_t t = 0; t < n; ++t) {
        if (done[t] || when[t] == When::StaticInit || when[t] == When::StaticEnd) {
            continue;
        }
        size_t u = t;
        if (when[t] == When::ThreadEnd && t + 1 < n && when[t + 1] == When::Thread) {
            u = t + 1; // the same thread
            done[u] = true;
        }
        act(static_cast<int>(when[t]), t, u);
    }
    state(h);
    interleaving(h);
    nontrivial();
    sample(std::to_string(n) + " programs, one of them at moment " + std::to_string(static_cast<int>(when[0])));
    const uint64_t how = draw(4);
    note("the end: %d", static_cast<int>(how));
    if (how == 1) {
        dlclose(plugin);
        fault("plug-in unloaded before the end");
    }
    if (how == 2) {
        fault("another thread ends the process");
        std::thread([] { end_process(); }).join();
    }
    end_process();
}
} // namespace

extern "C" p21::Host* p21_host()
{
    return &host;
}

const sim::World sim::world { "C21",
                              "each run is a process that draws 1-5 programs and when each is performed: by main, by a thread, by the destructor of a "
                              "thread_local object of a thread or of main, by an atexit function, by the constructor or destructor of a static object or by "
                              "the destructor of a function's static object; these are registered and constructed in a drawn order, between other programs, "
                              "and the library has not been used before in the process; results are compared with the model; non-trivial: every run",
                              run, false, 1 };
