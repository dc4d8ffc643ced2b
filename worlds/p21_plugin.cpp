// C21: the part of the program that uses the library. A plug-in, so that every run has a library that nobody has used before.
#include "p21.hpp"

#include <cstdlib>
#include <thread>

namespace
{
using namespace p21;
using namespace programs;

void perform_program(size_t t, const char* when)
{
    Host& h = *p21_host();
    Thread& me = h.w->threads[t];
    note("program %zu: %s", t, when);
    h.count(when);
    step(me.items.size());
    try {
        begin(*h.w, me);
        for (Item& it : me.items) {
            item(me, it, [&](std::vector<json::value>& docs, bool check) { perform(*h.w, me, it, docs, check); });
        }
        for (Item& it : me.items) {
            if (it.what == What::Print) {
                const std::string solo = print(bridge::plain(it.after[static_cast<size_t>(it.doc)]), it.form);
                if (solo != it.wrote) {
                    violate("text", "a program wrote " + show(it.wrote, 300) + " for what is " + show(solo, 300) + " when written alone");
                }
            }
        }
        me.docs.clear();
    }
    catch (const Violation& v) {
        threads::keep(v);
    }
    catch (const std::exception& e) {
        violate_later("unexpected-exception", std::string("an exception escaped to the program: ") + e.what());
    }
    threads::job = nullptr;
}

struct AtEnd
{
    std::vector<size_t> todo;
    const char* when;
    explicit AtEnd(const char* w) : when(w) {}
    ~AtEnd()
    {
        for (size_t t : todo) {
            perform_program(t, when);
        }
    }
};
struct StaticObject
{
    StaticObject()
    {
        for (size_t t : p21_host()->at_init) {
            perform_program(t, "constructor of a static object");
        }
    }
    ~StaticObject()
    {
        for (size_t t : p21_host()->at_end) {
            perform_program(t, "destructor of a static object");
        }
    }
} static_object;

AtEnd& of_thread()
{
    static thread_local AtEnd a("destructor of a thread_local object");
    return a;
}
AtEnd& of_function()
{
    static AtEnd a("destructor of a function's static object");
    return a;
}
constexpr size_t MaxHandlers = 8;
size_t g_handlers[MaxHandlers];
size_t g_n = 0;
void handler() // (in the reverse order of their registration)
{
    perform_program(g_handlers[--g_n], "atexit");
}
} // namespace

extern "C" void p21_do(int when, size_t t, size_t u)
{
    switch (static_cast<When>(when)) {
    case When::Thread:
        std::thread([t] { perform_program(t, "a thread"); }).join();
        break;
    case When::ThreadEnd:
        std::thread([t, u] {
            of_thread().todo.push_back(t);
            if (u != t) {
                perform_program(u, "a thread");
            }
        }).join();
        break;
    case When::Exit:
        if (g_n < MaxHandlers) {
            g_handlers[g_n++] = t;
            std::atexit(handler);
        }
        break;
    case When::LocalStatic:
        of_function().todo.push_back(t);
        break;
    case When::MainEnd:
        of_thread().todo.push_back(t);
        break;
    default:
        perform_program(t, "main");
        break;
    }
}
