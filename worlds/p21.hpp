// C21: what the program and its plug-in tell each other.
#pragma once
#include "programs.hpp"

namespace p21
{
// How the plug-in comes to perform program t.
enum class When
{
    Now,          // called by the main thread
    Thread,       // by a thread of its own
    ThreadEnd,    // by the destructor of a thread_local object, when a thread ends
    Exit,         // by a function registered with atexit
    LocalStatic,  // by the destructor of a static object of a function
    MainEnd,      // by the destructor of a thread_local object of the main thread
    StaticInit,   // by the constructor of a static object, while the plug-in is being loaded
    StaticEnd,    // by the destructor of that object
    N
};
struct Host
{
    programs::Group* w;
    std::vector<size_t> at_init, at_end; // programs of the static object
    void (*count)(const char*);
};
extern "C" Host* p21_host();                        // in the program
using Do = void (*)(int when, size_t t, size_t u); // in the plug-in: perform t, or see to it that it will be (u: before that, for some)
} // namespace p21
