// Deterministic-simulation core: one choice source per run, event log with hash, allocation seam,
// statistics, and the multi-process driver (search, confirm, minimise, replay).
// Nothing in here includes the code under test.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <string>
#include <vector>

namespace sim
{
// ---------------------------------------------------------------- choices
// Every nondeterministic decision of a run is one draw. In search mode draws come from the
// seeded PRNG and are recorded; in replay mode they come from the recorded list (0 when exhausted).
uint64_t draw(uint64_t n);                       // uniform in [0,n), n>=1; 0 is always the simplest choice
inline bool chance(uint64_t num, uint64_t den) { return draw(den) >= den - num; } // 0 -> false
inline uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo + 1); }
template <typename... T>
inline uint64_t pick(T... v)
{
    const uint64_t a[] = { static_cast<uint64_t>(v)... };
    return a[draw(sizeof...(v))];
}

// ---------------------------------------------------------------- log (never draws, never reads a clock)
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void note_bytes(const char* label, const std::string& bytes);
std::string show(const std::string& bytes, size_t max = 160); // printable form

// ---------------------------------------------------------------- violations
struct Violation // deliberately not a std::exception
{
    std::string cls;
};
[[noreturn]] void violate(const std::string& cls, const std::string& detail);
// for places where throwing would go through code under test: reported at the next checkpoint()
void violate_later(const std::string& cls, const std::string& detail);
void checkpoint();
const char* last_detail();
void race_seen(const char* cls, const char* detail); // like violate_later, without allocating
[[noreturn]] void fatal(const char* cls, const char* detail); // the run cannot go on: ends the process
// The run ends with the process: by exit(), and after everything that happens there. (For worlds with one run per process.)
[[noreturn]] void end_process();

// ---------------------------------------------------------------- statistics
void fault(const char* kind, uint64_t n = 1); // a fault that actually fired
void probe(const char* name, uint64_t n = 1); // a rare condition that was reached
void state(uint64_t hash);                    // distinct-state measure
void interleaving(uint64_t hash);             // distinct-schedule measure
void step(uint64_t n = 1);                    // simulated steps
void nontrivial();                            // this run counts as non-trivial by the world's rule
void sample(const std::string& text);         // a written-out case
inline uint64_t mix(uint64_t a, uint64_t b)
{
    uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b + 0xD1B54A32D192ED03ull + (a << 6) + (a >> 2));
    x ^= x >> 31;
    x *= 0xBF58476D1CE4E5B9ull;
    x ^= x >> 29;
    return x;
}
uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t hash_str(const std::string& s) { return hash_bytes(s.data(), s.size()); }

// ---------------------------------------------------------------- allocation seam
namespace mem
{
struct Plan
{
    bool on = false;         // counting (and failing) is active
    uint64_t count = 0;      // allocations seen since arm()
    uint64_t fail_at = 0;    // 1-based index of the first failing allocation, 0 = none
    bool lasting = false;    // every later allocation fails too
    uint64_t failed = 0;     // how many were failed
    uint64_t too_large = 0;  // allocations of this size and more fail, 0 = none
    int64_t quota = -1;      // more live blocks than this fail, -1 = no limit
    int64_t base = 0;        // live blocks at arm()
    int64_t peak = 0;        // most live blocks since then
    uint64_t largest = 0;    // largest block asked for
    void (*on_alloc)(uint64_t index) = nullptr; // called (with the seam off) before each counted allocation
};
extern Plan plan;
void arm(uint64_t fail_at, bool lasting);
// After arm(0, ...): memory that is short in another way. fail_at becomes the first allocation that failed.
void limit_size(uint64_t bytes);
void limit_live(int64_t blocks);
uint64_t disarm(); // returns number of allocations counted
int64_t live();    // live blocks from operator new
} // namespace mem

// ---------------------------------------------------------------- worlds
struct World
{
    const char* id;
    const char* rule; // how cases are made and what makes one non-trivial
    void (*run)();
    bool leak_check; // live blocks before == after
    uint64_t batch;  // runs per forked child
    double weight = 1;
};
extern const World world; // defined by the world's translation unit
int tier();               // 0 quick, 1 thorough

#if defined(__GNUC__)
#define SIM_CHECK(cond, cls, detail)            \
    do {                                        \
        if (!(cond))                            \
            ::sim::violate((cls), (detail));    \
    } while (0)
#endif
} // namespace sim
