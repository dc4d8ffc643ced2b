// Built without any instrumentation: the race detector must not see the hand-over between threads as synchronisation.
#include "sched.hpp"

#include <cerrno>
#include <cstring>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <linux/futex.h>

extern "C" char __executable_start, __data_start, _end;

namespace sched
{
namespace
{
constexpr int Max = 8;
enum St
{
    Done,
    Ready,
    Blocked
};
struct T
{
    int go;
    St st;
    const void* waits;
    sim::mem::Plan plan;
    pthread_t h;
    uint64_t switches;
};
T g_t[Max];
int g_main;
int g_n = 0;
bool g_on = false;
int g_cur = -1;
int64_t g_left = 0;    // steps until the next decision
int64_t g_given = 0;
uint64_t g_steps = 0;  // steps done in this run, up to the last decision
uint64_t g_limit = 0;
uint64_t g_hash = 0;
uint64_t g_switches = 0;
unsigned g_style = 0;
// Accesses to static storage, atomic operations and locks are where threads meet: in some runs they are preferred, one in g_meet.
uint64_t g_meet = 0;
uint64_t g_met = 0;
void (*g_body)(int, void*);
void* g_arg;

// (plain system call: libc's wrapper is none of the detector's business, but must not become a scheduling point either)
long futex(int* w, int op, int v)
{
    long r;
    register long r10 __asm__("r10") = 0;
    __asm__ volatile("syscall" : "=a"(r) : "a"(SYS_futex), "D"(w), "S"(op | FUTEX_PRIVATE_FLAG), "d"(v), "r"(r10) : "rcx", "r11", "memory");
    return r;
}
void wake(int* w)
{
    __atomic_store_n(w, 1, __ATOMIC_SEQ_CST);
    futex(w, FUTEX_WAKE, 1);
}
void wait(int* w)
{
    while (!__atomic_load_n(w, __ATOMIC_SEQ_CST)) {
        futex(w, FUTEX_WAIT, 0);
    }
    __atomic_store_n(w, 0, __ATOMIC_SEQ_CST);
}

constexpr int64_t Long = 1 << 22; // as good as forever; a waiting loop still gives way
void new_quantum()
{
    static const uint64_t width[] = { 20, 9, 13, 16, 6 }; // how long a thread goes on: at most 2^this, every magnitude alike
    const uint64_t e = sim::draw(4 * width[g_style] + 1);
    g_given = g_left = e == 0 ? Long : 1 + static_cast<int64_t>(sim::draw(uint64_t(2) << (e - 1) % width[g_style]));
}
int ready()
{
    int n = 0;
    for (int i = 0; i < g_n; ++i) {
        n += g_t[i].st == Ready;
    }
    return n;
}
int nth(uint64_t k)
{
    for (int i = 0; i < g_n; ++i) {
        if (g_t[i].st == Ready && k-- == 0) {
            return i;
        }
    }
    return -1;
}
void account()
{
    g_steps += static_cast<uint64_t>(g_given - g_left);
    g_given = g_left;
}
// Chooses who goes on. The current thread may be Ready (preempted), Blocked or Done.
void decide(bool far = false)
{
    account();
    if (g_steps > g_limit) {
        sim::fatal("no-progress", "the threads did not finish within the step limit");
    }
    const int me = g_cur;
    const bool keep = g_t[me].st == Ready;
    const int n = ready();
    if (n == 0) {
        bool blocked = false;
        for (int i = 0; i < g_n; ++i) {
            blocked |= g_t[i].st == Blocked;
        }
        if (blocked) {
            sim::fatal("deadlock", "every remaining thread waits for another one");
        }
        g_cur = -1;
        g_on = false;
        wake(&g_main);
        return;
    }
    // 0 is the current thread if it can go on, else the first one
    int to;
    if (keep) {
        const uint64_t k = n == 1 ? 0 : sim::draw(static_cast<uint64_t>(n));
        int base = 0;
        for (int i = 0; i < me; ++i) {
            base += g_t[i].st == Ready;
        }
        to = nth((static_cast<uint64_t>(base) + k) % static_cast<uint64_t>(n));
    }
    else {
        to = nth(n == 1 ? 0 : sim::draw(static_cast<uint64_t>(n)));
    }
    if (n == 1 || far) {
        g_given = g_left = Long; // nobody to give way to, or not soon
    }
    else {
        new_quantum();
    }
    if (to == me) {
        return;
    }
    ++g_switches;
    g_hash = sim::mix(g_hash, sim::mix(static_cast<uint64_t>(to), g_steps));
    g_t[me].plan = sim::mem::plan;
    sim::mem::plan = g_t[to].plan;
    g_cur = to;
    const bool done = g_t[me].st == Done;
    wake(&g_t[to].go);
    if (!done) {
        wait(&g_t[me].go);
    }
}
void* thread_main(void* p)
{
    const int me = static_cast<int>(reinterpret_cast<intptr_t>(p));
    wake(&g_main); // arrived
    wait(&g_t[me].go);
    g_body(me, g_arg);
    g_t[me].st = Done;
    decide();
    wait(&g_t[me].go); // threads end one after the other, too
    return nullptr;
}
} // namespace

bool active()
{
    return g_on;
}
int self()
{
    return g_cur;
}

void run(int n, void (*body)(int, void*), void* arg, uint64_t step_limit)
{
    g_n = n;
    g_body = body;
    g_arg = arg;
    g_limit = step_limit;
    g_steps = 0;
    g_switches = 0;
    g_hash = 99;
    g_main = 0;
    g_style = static_cast<unsigned>(sim::draw(5));
    static const uint64_t meet[] = { 0, 2, 3, 8 };
    g_meet = meet[sim::draw(4)];
    g_met = 0;
    for (int i = 0; i < n; ++i) {
        g_t[i].go = 0;
        g_t[i].st = Ready;
        g_t[i].waits = nullptr;
        g_t[i].plan = sim::mem::Plan {};
        if (pthread_create(&g_t[i].h, nullptr, thread_main, reinterpret_cast<void*>(static_cast<intptr_t>(i)))) {
            sim::fatal("harness", "pthread_create failed");
        }
        wait(&g_main);
    }
    const sim::mem::Plan keep = sim::mem::plan;
    sim::mem::plan = sim::mem::Plan {};
    g_cur = nth(sim::draw(static_cast<uint64_t>(n)));
    new_quantum();
    g_on = true;
    wake(&g_t[g_cur].go);
    wait(&g_main);
    for (int i = 0; i < n; ++i) {
        wake(&g_t[i].go);
        pthread_join(g_t[i].h, nullptr);
    }
    sim::mem::plan = keep;
    sim::note("schedule: style %u, %llu switches, %llu steps, %016llx", g_style, (unsigned long long)g_switches, (unsigned long long)g_steps,
              (unsigned long long)g_hash);
    sim::interleaving(g_hash);
    sim::step(g_steps);
    sim::fault("preemption", g_switches);
    sim::probe("access to static storage, atomic operation or lock", g_met);
}

namespace
{
inline void tick()
{
    if (g_on && --g_left < 0) {
        g_left = 0;
        const int e = errno;
        decide();
        errno = e;
    }
}
// Before an access that other threads may have a part in.
void meet()
{
    if (g_on) {
        ++g_met;
        if (g_meet && sim::draw(g_meet) == 0) {
            const int e = errno;
            decide(g_meet == 2 || sim::draw(2)); // who goes on mostly does so up to the next such access
            errno = e;
        }
    }
}
inline void touch(const void* p)
{
    if (p >= &__data_start && p < &_end) {
        meet();
    }
    tick();
}
// The current thread cannot go on before notify(w).
void block(const void* w)
{
    sim::probe("thread waits for a lock or a static initialisation");
    g_t[g_cur].st = Blocked;
    g_t[g_cur].waits = w;
    decide();
}
void notify(const void* w)
{
    for (int i = 0; i < g_n; ++i) {
        if (g_t[i].st == Blocked && g_t[i].waits == w) {
            g_t[i].st = Ready;
        }
    }
}
const void* g_busy[64];
int g_busy_n = 0;
bool busy(const void* w)
{
    for (int i = 0; i < g_busy_n; ++i) {
        if (g_busy[i] == w) {
            return true;
        }
    }
    return false;
}
void busy_add(const void* w)
{
    if (g_busy_n < 64) {
        g_busy[g_busy_n++] = w;
    }
}
void busy_del(const void* w)
{
    for (int i = 0; i < g_busy_n; ++i) {
        if (g_busy[i] == w) {
            g_busy[i] = g_busy[--g_busy_n];
            break;
        }
    }
    if (g_on) {
        notify(w);
    }
}
} // namespace
} // namespace sched

using namespace sched;
// ---------------------------------------------------------------- preemption points
#define POINT(name, T)            \
    extern "C" void name(T)       \
    {                             \
        tick();                   \
    }
#define ACCESS(name)              \
    extern "C" void name(void* p) \
    {                             \
        touch(p);                 \
    }
POINT(__sanitizer_cov_trace_pc_guard, uint32_t*)
ACCESS(__sanitizer_cov_load1)
ACCESS(__sanitizer_cov_load2)
ACCESS(__sanitizer_cov_load4)
ACCESS(__sanitizer_cov_load8)
ACCESS(__sanitizer_cov_load16)
ACCESS(__sanitizer_cov_store1)
ACCESS(__sanitizer_cov_store2)
ACCESS(__sanitizer_cov_store4)
ACCESS(__sanitizer_cov_store8)
ACCESS(__sanitizer_cov_store16)
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t*, uint32_t*) {}

// ---------------------------------------------------------------- blocking primitives (linked with --wrap)
// A thread that would block gives way instead; the real primitive is then entered without contention.
extern "C"
{
int __real___cxa_guard_acquire(void* g);
void __real___cxa_guard_release(void* g);
void __real___cxa_guard_abort(void* g);
int __wrap___cxa_guard_acquire(void* g)
{
    meet();
    while (g_on && busy(g)) {
        block(g);
    }
    const int r = __real___cxa_guard_acquire(g);
    if (r) {
        busy_add(g);
    }
    return r;
}
void __wrap___cxa_guard_release(void* g)
{
    __real___cxa_guard_release(g);
    busy_del(g);
}
void __wrap___cxa_guard_abort(void* g)
{
    __real___cxa_guard_abort(g);
    busy_del(g);
}
int __real_pthread_mutex_lock(pthread_mutex_t* m);
int __real_pthread_mutex_unlock(pthread_mutex_t* m);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    meet();
    if (!g_on) {
        return __real_pthread_mutex_lock(m);
    }
    for (;;) {
        const int r = pthread_mutex_trylock(m);
        if (r != EBUSY) {
            return r;
        }
        block(m);
    }
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    meet();
    const int r = __real_pthread_mutex_unlock(m);
    if (g_on) {
        notify(m);
    }
    return r;
}
int __real_pthread_rwlock_rdlock(pthread_rwlock_t* m);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t* m);
int __real_pthread_rwlock_unlock(pthread_rwlock_t* m);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    meet();
    if (!g_on) {
        return __real_pthread_rwlock_rdlock(m);
    }
    for (;;) {
        const int r = pthread_rwlock_tryrdlock(m);
        if (r != EBUSY) {
            return r;
        }
        block(m);
    }
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    meet();
    if (!g_on) {
        return __real_pthread_rwlock_wrlock(m);
    }
    for (;;) {
        const int r = pthread_rwlock_trywrlock(m);
        if (r != EBUSY) {
            return r;
        }
        block(m);
    }
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    meet();
    const int r = __real_pthread_rwlock_unlock(m);
    if (g_on) {
        notify(m);
    }
    return r;
}
int __real_pthread_once(pthread_once_t* o, void (*f)());
int __wrap_pthread_once(pthread_once_t* o, void (*f)())
{
    meet();
    while (g_on && busy(o)) {
        block(o);
    }
    busy_add(o);
    struct End
    {
        const void* o;
        ~End() { busy_del(o); }
    } end { o };
    return __real_pthread_once(o, f);
}
int __wrap_sched_yield()
{
    if (g_on) {
        decide();
    }
    return 0;
}

// Atomic operations other than loads and stores (those have callbacks of their own).
#define RMW(bits, T, op)                                             \
    T __real___tsan_atomic##bits##_##op(volatile T* a, T v, int mo); \
    T __wrap___tsan_atomic##bits##_##op(volatile T* a, T v, int mo)  \
    {                                                                \
        meet();                                                      \
        tick();                                                      \
        return __real___tsan_atomic##bits##_##op(a, v, mo);          \
    }
#define CAS(bits, T, op)                                                               \
    int __real___tsan_atomic##bits##_##op(volatile T* a, T* c, T v, int mo, int fmo);  \
    int __wrap___tsan_atomic##bits##_##op(volatile T* a, T* c, T v, int mo, int fmo)   \
    {                                                                                  \
        meet();                                                                        \
        tick();                                                                        \
        return __real___tsan_atomic##bits##_##op(a, c, v, mo, fmo);                    \
    }
#define ATOMIC(bits, T)                    \
    RMW(bits, T, exchange)                 \
    RMW(bits, T, fetch_add)                \
    RMW(bits, T, fetch_sub)                \
    RMW(bits, T, fetch_and)                \
    RMW(bits, T, fetch_or)                 \
    RMW(bits, T, fetch_xor)                \
    CAS(bits, T, compare_exchange_strong)  \
    CAS(bits, T, compare_exchange_weak)
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)

// ---------------------------------------------------------------- the race detector's reports
int __tsan_get_report_data(void* report, const char** description, int* count, int* stack_count, int* mop_count, int* loc_count, int* mutex_count,
                           int* thread_count, int* unique_tid_count, void** sleep_trace, unsigned long trace_size) __attribute__((weak));
int __tsan_get_report_mop(void* report, unsigned long idx, int* tid, void** addr, int* size, int* write, int* atomic, void** trace,
                          unsigned long trace_size) __attribute__((weak));
void __tsan_on_report(void* rep)
{
    char text[1000];
    const char* d = "";
    int count = 0, stacks = 0, mops = 0, locs = 0, mutexes = 0, threads = 0, tids = 0;
    void* sleep[1] = {};
    int at = 0;
    if (__tsan_get_report_data) {
        __tsan_get_report_data(rep, &d, &count, &stacks, &mops, &locs, &mutexes, &threads, &tids, sleep, 1);
    }
    for (int i = 0; i < mops && i < 2 && __tsan_get_report_mop; ++i) {
        int tid = 0, size = 0, write = 0, atomic = 0;
        void* addr = nullptr;
        void* trace[12] = {};
        __tsan_get_report_mop(rep, static_cast<unsigned long>(i), &tid, &addr, &size, &write, &atomic, trace, 12);
        at += snprintf(text + at, sizeof(text) - static_cast<size_t>(at), "%s%s of %d bytes at", i ? "; " : ": ", write ? "write" : "read", size);
        for (int k = 0; k < 8 && trace[k] && at < 480 * (i + 1); ++k) {
            at += snprintf(text + at, sizeof(text) - static_cast<size_t>(at), " pc:0x%zx",
                           static_cast<size_t>(static_cast<char*>(trace[k]) - &__executable_start));
        }
    }
    char cls[100];
    snprintf(cls, sizeof cls, "race/%s", d && *d ? d : "data-race");
    text[at] = 0;
    sim::race_seen(cls, text);
}
}
