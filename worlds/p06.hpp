// C06: one attempt at an operation for every place where its allocation can fail.
#pragma once
#include "core.hpp"

#include <functional>
#include <new>
#include <vector>

namespace p06
{
using namespace sim;

struct Seam // counts (and fails) allocations while it lives
{
    Seam() { mem::plan.on = true; }
    ~Seam() { mem::plan.on = false; }
};
inline void ready(uint64_t k, bool lasting)
{
    mem::arm(k, lasting);
    mem::plan.on = false;
}
// Which allocations to fail: all of a few, or a drawn handful.
inline std::vector<uint64_t> points(uint64_t n, uint64_t most = 8)
{
    std::vector<uint64_t> k;
    if (n <= most) {
        for (uint64_t i = 1; i <= n; ++i) {
            k.push_back(i);
        }
    }
    else {
        for (uint64_t i = 0; i < most; ++i) {
            k.push_back(1 + draw(n));
        }
    }
    return k;
}
// prepare() makes a fresh state, run(state) performs the operation with the seam around library calls, good(state)
// checks a completed operation, bad(state) what may be left after a failed one. Both throw violations.
template <typename Prepare, typename Run, typename Good, typename Bad>
void sweep(const char* what, Prepare prepare, Run run, Good good, Bad bad, uint64_t most = 8)
{
    { // one-time initialisation happens here
        auto st = prepare();
        run(st);
        good(st);
    }
    auto st = prepare();
    ready(0, false);
    run(st);
    const uint64_t n = mem::disarm();
    const uint64_t largest = mem::plan.largest;
    const int64_t peak = mem::plan.peak;
    good(st);
    if (n) {
        nontrivial();
        probe(what);
    }
    // one fails, all later ones fail, too, large ones fail, more than so many at a time fail
    const uint64_t mode = draw(4);
    static const char* const kinds[] = { "one allocation fails", "allocations fail from some point on", "large allocations fail", "memory for a limited number of blocks" };
    step();
    for (uint64_t k : points(n, most)) {
        auto s = prepare();
        bool threw = false;
        if (mode < 2) {
            ready(k, mode == 1);
        }
        else {
            ready(0, false);
            mode == 2 ? mem::limit_size(1 + draw(largest)) : mem::limit_live(static_cast<int64_t>(draw(static_cast<uint64_t>(peak))));
        }
        try {
            run(s);
        }
        catch (const std::bad_alloc&) {
            threw = true;
        }
        catch (const std::exception& e) {
            violate("outcome", std::string(what) + " answered a failed allocation with another exception: " + e.what());
        }
        const uint64_t failed = mem::plan.failed;
        mem::disarm();
        fault(kinds[mode], failed != 0);
        note("%s: %s (%llu of %llu first): %s", what, kinds[mode], (unsigned long long)mem::plan.fail_at, (unsigned long long)n, threw ? "bad_alloc" : "completed");
        if (threw && !failed) {
            violate("outcome", std::string(what) + " reported bad_alloc although no allocation failed");
        }
        step();
        if (threw) {
            bad(s);
        }
        else {
            good(s);
        }
    }
}
} // namespace p06
