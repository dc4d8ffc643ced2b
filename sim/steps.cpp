// The step seam. Compiled without instrumentation; the world's units are compiled with -fsanitize-coverage=trace-pc-guard.
#include "steps.hpp"

#include <cstdio>
#include <cstring>

namespace steps
{
uint64_t count = 0;
static uint64_t max = 0;
static bool on = false;
static uint64_t failures = 0;

static void add(uint64_t n)
{
    count += n;
    if (count > max) {
        on = false;
        char text[120];
        snprintf(text, sizeof text, "more than %llu steps and no end", (unsigned long long)max);
        sim::fatal("steps", text);
    }
}
static inline void bytes(size_t n)
{
    if (on) {
        add(1 + n / 8);
    }
}
// (an allocation is some work; one that fails is much more: the exception and what it unwinds)
static void on_alloc(uint64_t)
{
    if (on) {
        add(10 + 1000 * (sim::mem::plan.failed - failures));
        failures = sim::mem::plan.failed;
    }
}
void start(uint64_t limit)
{
    count = 0;
    max = limit;
    failures = 0;
    sim::mem::plan.on_alloc = on_alloc;
    on = true;
}
uint64_t stop()
{
    on = false;
    sim::mem::plan.on_alloc = nullptr;
    return count;
}
} // namespace steps

extern "C"
{
void __sanitizer_cov_trace_pc_guard_init(uint32_t*, uint32_t*) {}
void __sanitizer_cov_trace_pc_guard(uint32_t*)
{
    if (steps::on) {
        steps::add(1);
    }
}
// (the library's copies between strings, vectors and buffers)
void* memcpy(void* __restrict d, const void* __restrict s, size_t n)
{
    steps::bytes(n);
    void* r = d;
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    return r;
}
void* memmove(void* d, const void* s, size_t n)
{
    steps::bytes(n);
    void* r = d;
    if (static_cast<char*>(d) <= static_cast<const char*>(s) || static_cast<char*>(d) >= static_cast<const char*>(s) + n) {
        __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    }
    else {
        volatile char* p = static_cast<char*>(d);
        const volatile char* q = static_cast<const char*>(s);
        while (n--) {
            p[n] = q[n];
        }
    }
    return r;
}
void* memset(void* d, int c, size_t n)
{
    steps::bytes(n);
    void* r = d;
    __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
    return r;
}
int memcmp(const void* a, const void* b, size_t n)
{
    const volatile unsigned char* x = static_cast<const unsigned char*>(a);
    const volatile unsigned char* y = static_cast<const unsigned char*>(b);
    size_t i = 0;
    while (i < n && x[i] == y[i]) {
        ++i;
    }
    steps::bytes(i);
    return i == n ? 0 : x[i] - y[i];
}
void* sim_memchr(const void* a, int c, size_t n) __asm__("memchr");
void* sim_memchr(const void* a, int c, size_t n)
{
    const volatile unsigned char* x = static_cast<const unsigned char*>(a);
    size_t i = 0;
    while (i < n && x[i] != static_cast<unsigned char>(c)) {
        ++i;
    }
    steps::bytes(i);
    return i == n ? nullptr : const_cast<unsigned char*>(x + i);
}
size_t strlen(const char* s)
{
    const volatile char* p = s;
    while (*p) {
        ++p;
    }
    steps::bytes(static_cast<size_t>(p - s));
    return static_cast<size_t>(p - s);
}
}
