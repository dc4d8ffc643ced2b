// What the worlds with threads share: one typed item of a thread's program.
#pragma once
#include "ref.hpp"

#include <memory>
#include <new>
#include <vector>

namespace threads
{
using ref::RV;
enum class Do
{
    Message, // (before the threads run) a message of the type, into *out
    Value,   // (before the threads run) a value of the type, into own, and the document it denotes, into *out
    Read,    // typed reads of a node of a document nobody changes
    Convert, // own value -> document -> text -> document -> value
    Receive  // a message of its own, read in several ways
};
struct Job
{
    Do what;
    RV* out = nullptr;
    std::shared_ptr<void> own;
    const void* node = nullptr; // const json::value*
    const RV* want = nullptr;
    uint64_t form = 0;
};
inline thread_local Job* job = nullptr;

// A violation seen by a thread is reported when all threads have ended.
inline void keep(const sim::Violation& v)
{
    sim::violate_later(v.cls, sim::last_detail());
}

// Runs fn with allocation number k failing (0: none). True if it completed; if it threw bad_alloc, an allocation did fail.
template <typename F>
bool with_failure(uint64_t k, bool lasting, F&& fn)
{
    if (!k) {
        fn();
        return true;
    }
    bool threw = false;
    sim::mem::arm(k, lasting);
    try {
        fn();
    }
    catch (const std::bad_alloc&) {
        threw = true;
    }
    catch (...) {
        sim::mem::disarm();
        throw;
    }
    const uint64_t failed = sim::mem::plan.failed;
    sim::mem::disarm();
    if (threw && !failed) {
        sim::violate("outcome", "bad_alloc although no allocation of this thread failed");
    }
    sim::fault("failed allocation in one thread", failed != 0);
    return !threw;
}
} // namespace threads
