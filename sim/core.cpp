#include "core.hpp"

#include <algorithm>
#include <atomic>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <new>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern "C"
{
void AnnotateIgnoreReadsBegin(const char* f, int l) __attribute__((weak));
void AnnotateIgnoreReadsEnd(const char* f, int l) __attribute__((weak));
void AnnotateIgnoreWritesBegin(const char* f, int l) __attribute__((weak));
void AnnotateIgnoreWritesEnd(const char* f, int l) __attribute__((weak));
}

// The simulator keeps its own bookkeeping out of operator new (it would disturb the allocation seam):
// shared memory and fixed buffers only while a run is in progress.
namespace sim
{
namespace
{
// The race detector sees what the simulator does through the C library, but not why that is safe.
struct Quiet
{
    Quiet()
    {
        if (AnnotateIgnoreReadsBegin) {
            AnnotateIgnoreReadsBegin("", 0);
            AnnotateIgnoreWritesBegin("", 0);
        }
    }
    ~Quiet()
    {
        if (AnnotateIgnoreReadsBegin) {
            AnnotateIgnoreWritesEnd("", 0);
            AnnotateIgnoreReadsEnd("", 0);
        }
    }
};

constexpr size_t MaxChoices = 1u << 20;
constexpr size_t MaxCounters = 256;
constexpr size_t HashSlots = 1u << 22;
constexpr size_t MaxText = 1u << 20;

struct Counter
{
    char name[56];
    std::atomic<uint64_t> n;
};

// One per worker: what the child is doing right now (survives the child's death).
struct Progress
{
    uint64_t index;    // run index in progress
    uint64_t first;    // first run index of this process
    uint64_t n_choices;
    uint64_t overflow; // choices that did not fit
    uint64_t log_hash;
    uint64_t events;
    int running;
    int violated;
    char cls[160];
    char detail[4096];
    char report[2048]; // sanitizer / terminate report
    uint64_t done_runs;
    uint64_t text_len;
    char text[MaxText]; // readable trace (replay mode only)
    uint64_t choices[MaxChoices];
};

struct Shared
{
    std::atomic<uint64_t> min_violation; // lowest violating run index
    std::atomic<uint64_t> runs, nontrivial, distinct, steps, states, interleavings, events, draws;
    Counter faults[MaxCounters];
    Counter probes[MaxCounters];
    std::atomic<uint64_t> n_samples;
    char samples[6][1500];
    std::atomic<uint64_t> state_tab[HashSlots];
    std::atomic<uint64_t> inter_tab[HashSlots];
    std::atomic<uint64_t> seen_tab[HashSlots]; // event-log hashes of non-trivial runs
};

Shared* g_sh = nullptr;
Progress* g_pr = nullptr;
bool g_replay = false;
bool g_verbose = false;
bool g_count = true;
const uint64_t* g_in = nullptr;
size_t g_in_n = 0;
size_t g_in_pos = 0;
uint64_t g_rng = 0;
int g_tier = 0;
bool g_run_nontrivial = false;

struct Later
{
    bool set = false;
    char cls[160];
    char detail[1024];
} g_later;

uint64_t rng_next()
{
    uint64_t z = (g_rng += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

void bump(Counter* tab, const char* name, uint64_t n)
{
    Quiet quiet;
    if (!g_count || !g_sh) {
        return;
    }
    uint64_t h = hash_bytes(name, strlen(name));
    for (size_t i = 0; i < MaxCounters; ++i) {
        Counter& c = tab[(h + i) % MaxCounters];
        if (c.name[0] == 0) {
            // benign race between workers: same name is written, or a duplicate slot is merged on output
            strncpy(c.name, name, sizeof(c.name) - 1);
        }
        if (strncmp(c.name, name, sizeof(c.name) - 1) == 0) {
            c.n += n;
            return;
        }
    }
}

bool insert_hash(std::atomic<uint64_t>* tab, uint64_t h)
{
    if (h == 0) {
        h = 1;
    }
    for (size_t i = 0; i < 64; ++i) {
        auto& slot = tab[(h + i) % HashSlots];
        uint64_t cur = slot.load(std::memory_order_relaxed);
        if (cur == h) {
            return false;
        }
        if (cur == 0) {
            if (slot.compare_exchange_strong(cur, h)) {
                return true;
            }
            if (cur == h) {
                return false;
            }
        }
    }
    return false; // table full: undercounts
}

void log_raw(const char* s, size_t n)
{
    g_pr->log_hash = hash_bytes(s, n, g_pr->log_hash);
    g_pr->events++;
    if (g_verbose && g_pr->text_len + n + 2 < MaxText) {
        memcpy(g_pr->text + g_pr->text_len, s, n);
        g_pr->text_len += n;
        g_pr->text[g_pr->text_len++] = '\n';
    }
}
} // namespace

uint64_t hash_bytes(const void* p, size_t n, uint64_t h)
{
    auto b = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) {
        h = (h ^ b[i]) * 1099511628211ull;
    }
    return h ^ (h >> 29);
}

uint64_t draw(uint64_t n)
{
    uint64_t v;
    if (n == 0) {
        n = 1;
    }
    if (g_replay) {
        v = g_in_pos < g_in_n ? g_in[g_in_pos] % n : 0;
        ++g_in_pos;
    }
    else {
        v = n == 1 ? 0 : rng_next() % n;
    }
    if (g_pr->n_choices < MaxChoices) {
        g_pr->choices[g_pr->n_choices++] = v;
    }
    else {
        g_pr->overflow++;
    }
    return v;
}

void note(const char* fmt, ...)
{
    Quiet quiet;
    char buf[2048];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    if (n < 0) {
        n = 0;
    }
    log_raw(buf, std::min<size_t>(n, sizeof(buf) - 1));
}

std::string show(const std::string& bytes, size_t max)
{
    std::string r = "\"";
    char tmp[8];
    for (size_t i = 0; i < bytes.size(); ++i) {
        if (r.size() > max) {
            r += "...";
            break;
        }
        unsigned char c = bytes[i];
        if (c == '"' || c == '\\') {
            r += '\\';
            r += static_cast<char>(c);
        }
        else if (c < 0x20 || c >= 0x7f) {
            snprintf(tmp, sizeof(tmp), "\\x%02x", c);
            r += tmp;
        }
        else {
            r += static_cast<char>(c);
        }
    }
    r += "\"(" + std::to_string(bytes.size()) + ")";
    return r;
}

void note_bytes(const char* label, const std::string& bytes)
{
    Quiet quiet;
    g_pr->log_hash = hash_bytes(bytes.data(), bytes.size(), g_pr->log_hash);
    if (g_verbose) {
        note("%s %s", label, show(bytes, 1200).c_str());
    }
    else {
        // same hash contribution as above must not depend on verbosity
        std::string s = show(bytes, 1200);
        note("%s %s", label, s.c_str());
    }
}

void violate(const std::string& cls, const std::string& detail)
{
    mem::plan.on = false;
    {
        Quiet quiet;
        snprintf(g_pr->detail, sizeof(g_pr->detail), "%s", detail.c_str());
    }
    throw Violation { cls };
}

void violate_later(const std::string& cls, const std::string& detail)
{
    Quiet quiet;
    if (!g_later.set) {
        g_later.set = true;
        snprintf(g_later.cls, sizeof(g_later.cls), "%s", cls.c_str());
        snprintf(g_later.detail, sizeof(g_later.detail), "%s", detail.c_str());
    }
}

const char* last_detail()
{
    return g_pr->detail;
}

void checkpoint()
{
    if (g_later.set) {
        g_later.set = false;
        violate(g_later.cls, g_later.detail);
    }
}

void fault(const char* kind, uint64_t n)
{
    bump(g_sh->faults, kind, n);
}
void probe(const char* name, uint64_t n)
{
    bump(g_sh->probes, name, n);
}
void state(uint64_t hash)
{
    if (g_count && insert_hash(g_sh->state_tab, hash)) {
        g_sh->states++;
    }
}
void interleaving(uint64_t hash)
{
    if (g_count && insert_hash(g_sh->inter_tab, hash)) {
        g_sh->interleavings++;
    }
}
void step(uint64_t n)
{
    if (g_count) {
        g_sh->steps += n;
    }
}
void nontrivial()
{
    g_run_nontrivial = true;
}
void sample(const std::string& text)
{
    Quiet quiet;
    if (!g_count || g_sh->n_samples >= 6) {
        return;
    }
    // keep samples spread over the search: only from the first runs of the batch, deterministic enough for evidence
    uint64_t i = g_sh->n_samples++;
    if (i < 6) {
        strncpy(g_sh->samples[i], text.c_str(), sizeof(g_sh->samples[i]) - 1);
    }
}
int tier()
{
    return g_tier;
}

namespace mem
{
Plan plan;
static std::atomic<int64_t> g_live { 0 };
void arm(uint64_t fail_at, bool lasting)
{
    plan.count = 0;
    plan.failed = 0;
    plan.fail_at = fail_at;
    plan.lasting = lasting;
    plan.too_large = 0;
    plan.quota = -1;
    plan.base = live();
    plan.peak = 0;
    plan.largest = 0;
    plan.on = true;
}
void limit_size(uint64_t bytes)
{
    plan.too_large = bytes;
}
void limit_live(int64_t blocks)
{
    plan.quota = blocks;
}
uint64_t disarm()
{
    plan.on = false;
    return plan.count;
}
int64_t live()
{
    return g_live.load(std::memory_order_relaxed);
}
static bool seam(size_t n)
{
    if (!plan.on) {
        return false;
    }
    ++plan.count;
    const int64_t held = live() - plan.base;
    plan.peak = held + 1 > plan.peak ? held + 1 : plan.peak;
    plan.largest = n > plan.largest ? n : plan.largest;
    if (plan.on_alloc) {
        plan.on = false;
        plan.on_alloc(plan.count);
        plan.on = true;
    }
    if (plan.fail_at && (plan.count == plan.fail_at || (plan.lasting && plan.count > plan.fail_at))) {
        ++plan.failed;
        return true;
    }
    if ((plan.too_large && n >= plan.too_large) || (plan.quota >= 0 && held >= plan.quota)) {
        if (!plan.failed++) {
            plan.fail_at = plan.count;
        }
        return true;
    }
    return false;
}
static void* get(size_t n, size_t align)
{
    if (seam(n)) {
        return nullptr;
    }
    void* p = nullptr;
    if (align > alignof(std::max_align_t)) {
        if (posix_memalign(&p, align, n ? n : 1)) {
            p = nullptr;
        }
    }
    else {
        p = malloc(n ? n : 1);
    }
    if (p) {
        g_live.fetch_add(1, std::memory_order_relaxed);
    }
    return p;
}
static void put(void* p)
{
    if (p) {
        g_live.fetch_sub(1, std::memory_order_relaxed);
        free(p);
    }
}
} // namespace mem
} // namespace sim

void* operator new(size_t n)
{
    if (void* p = sim::mem::get(n, 0)) {
        return p;
    }
    throw std::bad_alloc();
}
void* operator new[](size_t n)
{
    return operator new(n);
}
void* operator new(size_t n, const std::nothrow_t&) noexcept
{
    return sim::mem::get(n, 0);
}
void* operator new[](size_t n, const std::nothrow_t&) noexcept
{
    return sim::mem::get(n, 0);
}
void* operator new(size_t n, std::align_val_t a)
{
    if (void* p = sim::mem::get(n, static_cast<size_t>(a))) {
        return p;
    }
    throw std::bad_alloc();
}
void* operator new[](size_t n, std::align_val_t a)
{
    return operator new(n, a);
}
void operator delete(void* p) noexcept
{
    sim::mem::put(p);
}
void operator delete[](void* p) noexcept
{
    sim::mem::put(p);
}
void operator delete(void* p, size_t) noexcept
{
    sim::mem::put(p);
}
void operator delete[](void* p, size_t) noexcept
{
    sim::mem::put(p);
}
void operator delete(void* p, std::align_val_t) noexcept
{
    sim::mem::put(p);
}
void operator delete[](void* p, std::align_val_t) noexcept
{
    sim::mem::put(p);
}
void operator delete(void* p, const std::nothrow_t&) noexcept
{
    sim::mem::put(p);
}
void operator delete[](void* p, const std::nothrow_t&) noexcept
{
    sim::mem::put(p);
}

// ---------------------------------------------------------------- sanitizer seams
extern "C"
{
const char* __asan_get_report_description() __attribute__((weak));
const char* __asan_default_options()
{
    return "detect_leaks=0:abort_on_error=0:exitcode=77:symbolize=0:print_summary=0:handle_segv=0:handle_abort=0:handle_sigfpe=0:"
           "handle_sigill=0:handle_sigbus=0:allocator_may_return_null=0:detect_stack_use_after_return=0:log_path=stderr:"
           "max_malloc_fill_size=0:detect_odr_violation=0";
}
int __tsan_get_report_data(void*, const char**, int*, int*, int*, int*, int*, int*, int*, void**, unsigned long) __attribute__((weak));
const char* __ubsan_default_options()
{
    if (__tsan_get_report_data) {
        return ""; // one set of common options
    }
    return "halt_on_error=1:exitcode=78:symbolize=0:print_summary=0:log_path=stderr";
}
const char* __tsan_default_options()
{
    return "halt_on_error=0:exitcode=0:symbolize=0:print_summary=0:log_path=stderr:handle_segv=0:handle_abort=0:report_thread_leaks=0:"
           "report_signal_unsafe=0:report_destroy_locked=0:history_size=3:die_after_fork=0";
}
void __asan_on_error()
{
    if (sim::g_pr && __asan_get_report_description) {
        const char* d = __asan_get_report_description();
        snprintf(sim::g_pr->report, sizeof(sim::g_pr->report), "asan:%s", d ? d : "?");
    }
}
void __ubsan_get_current_report_data(const char** kind, const char** msg, const char** file, unsigned* line, unsigned* col, char** addr)
    __attribute__((weak));
void __ubsan_on_report()
{
    if (sim::g_pr && __ubsan_get_current_report_data) {
        const char *kind = "", *msg = "", *file = "";
        unsigned line = 0, col = 0;
        char* addr = nullptr;
        __ubsan_get_current_report_data(&kind, &msg, &file, &line, &col, &addr);
        snprintf(sim::g_pr->report, sizeof(sim::g_pr->report), "ubsan:%s", kind);
    }
}
}

namespace sim
{
void race_seen(const char* cls, const char* detail)
{
    Quiet quiet;
    if (!g_later.set) {
        g_later.set = true;
        snprintf(g_later.cls, sizeof(g_later.cls), "%s", cls);
        snprintf(g_later.detail, sizeof(g_later.detail), "%s", detail);
    }
}

constexpr int FatalExit = 80;
void fatal(const char* cls, const char* detail)
{
    snprintf(g_pr->cls, sizeof(g_pr->cls), "%s", cls);
    snprintf(g_pr->detail, sizeof(g_pr->detail), "%s", detail);
    g_pr->violated = 1;
    _exit(FatalExit);
}

namespace
{
extern bool g_ends;
}
void end_process()
{
    g_ends = true;
    exit(0);
}

namespace
{
void on_terminate()
{
    if (g_pr) {
        snprintf(g_pr->report, sizeof(g_pr->report), "terminate:std::terminate was called (exception escaped a noexcept function)");
    }
    _exit(79);
}

double now_s()
{
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

void reset_run()
{
    g_pr->n_choices = 0;
    g_pr->overflow = 0;
    g_pr->log_hash = 1469598103934665603ull;
    g_pr->events = 0;
    g_pr->text_len = 0;
    g_pr->violated = 0;
    g_pr->cls[0] = 0;
    g_pr->detail[0] = 0;
    g_pr->report[0] = 0;
    g_in_pos = 0;
    g_later.set = false;
    g_run_nontrivial = false;
    mem::plan = mem::Plan {};
}

// One execution of the world. Returns true if it violated; *delta is the change in live blocks.
bool run_once(int64_t* delta)
{
    reset_run();
    g_pr->running = 1;
    int64_t before = mem::live();
    bool bad = false;
    try {
        world.run();
        mem::plan.on = false;
        checkpoint();
    }
    catch (const Violation& v) {
        bad = true;
        strncpy(g_pr->cls, v.cls.c_str(), sizeof(g_pr->cls) - 1);
    }
    catch (const std::exception& e) {
        mem::plan.on = false;
        bad = true;
        strncpy(g_pr->cls, "unexpected-exception", sizeof(g_pr->cls) - 1);
        snprintf(g_pr->detail, sizeof(g_pr->detail), "an exception escaped to the workload: %s", e.what());
    }
    mem::plan.on = false;
    *delta = mem::live() - before;
    return bad;
}

// Blocks left behind may be one-time initialisation (a function-local static): a leak is what every repetition of the
// same run leaves behind again.
bool leaks_again()
{
    static uint64_t keep[MaxChoices];
    const size_t n = g_pr->n_choices;
    memcpy(keep, g_pr->choices, n * sizeof(uint64_t));
    const uint64_t hash = g_pr->log_hash, events = g_pr->events, len = g_pr->text_len, overflow = g_pr->overflow;
    const bool nontriv = g_run_nontrivial, replay = g_replay, verbose = g_verbose, count = g_count;
    const uint64_t* in = g_in;
    const size_t in_n = g_in_n;
    g_replay = true;
    g_verbose = false;
    g_count = false;
    g_in = keep;
    g_in_n = n;
    bool again = true;
    for (int i = 0; i < 3 && again; ++i) {
        int64_t delta = 0;
        again = !run_once(&delta) && delta > 0;
    }
    memcpy(g_pr->choices, keep, n * sizeof(uint64_t));
    g_pr->n_choices = n;
    g_pr->log_hash = hash;
    g_pr->events = events;
    g_pr->text_len = len;
    g_pr->overflow = overflow;
    g_pr->cls[0] = g_pr->detail[0] = 0;
    g_run_nontrivial = nontriv;
    g_replay = replay;
    g_verbose = verbose;
    g_count = count;
    g_in = in;
    g_in_n = in_n;
    return again;
}

// What the run came to.
void run_ends(bool bad)
{
    g_pr->running = 0;
    g_pr->violated = bad;
    if (g_count) {
        g_sh->runs++;
        g_sh->events += g_pr->events;
        g_sh->draws += g_pr->n_choices;
        if (g_run_nontrivial) {
            g_sh->nontrivial++;
            if (insert_hash(g_sh->seen_tab, g_pr->log_hash)) {
                g_sh->distinct++;
            }
        }
    }
}

bool g_ends = false; // the run ends with the process
// (registered before any other function of the program, so the last one to be called)
__attribute__((constructor(101))) void register_last()
{
    atexit([] {
        if (!g_ends) {
            return;
        }
        mem::plan.on = false;
        bool bad = false;
        try {
            checkpoint();
        }
        catch (const Violation& v) {
            bad = true;
            strncpy(g_pr->cls, v.cls.c_str(), sizeof(g_pr->cls) - 1);
        }
        run_ends(bad);
        g_pr->done_runs++;
        _exit(bad && g_count ? 10 : 0);
    });
}

// Runs the world once in this process. Returns true if it violated.
bool run_here()
{
    int64_t delta = 0;
    bool bad = run_once(&delta);
    if (!bad && world.leak_check && delta > 0 && leaks_again()) {
        bad = true;
        strncpy(g_pr->cls, "leak", sizeof(g_pr->cls) - 1);
        snprintf(g_pr->detail, sizeof(g_pr->detail), "%lld blocks still allocated after every object of the run was destroyed",
                 static_cast<long long>(delta));
    }
    run_ends(bad);
    return bad;
}

void child_setup()
{
    std::set_terminate(on_terminate);
    const int null = open("/dev/null", O_WRONLY | O_CLOEXEC); // sanitizer reports reach us through their hooks
    if (null >= 0) {
        dup2(null, 2);
        close(null);
    }
    struct rlimit rl {};
    rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
}

void arm_cpu_alarm(int seconds)
{
    itimerval tv {};
    tv.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &tv, nullptr); // CPU time: SIGPROF kills the child, classified as a hang
    tv.it_value.tv_sec = 150;
    setitimer(ITIMER_REAL, &tv, nullptr); // waiting forever: SIGALRM
}

// After a child died: what class of failure is it?
void classify_death(int status)
{
    if (WIFEXITED(status) && WEXITSTATUS(status) == FatalExit && g_pr->violated) {
        return; // described already
    }
    g_pr->violated = 1;
    if (g_pr->report[0]) {
        std::string rep = g_pr->report;
        auto colon = rep.find(':');
        std::string kind = rep.substr(0, colon);
        std::string what = rep.substr(colon + 1);
        if (kind == "terminate") {
            snprintf(g_pr->cls, sizeof(g_pr->cls), "terminate");
        }
        else {
            snprintf(g_pr->cls, sizeof(g_pr->cls), "%s/%.100s", kind.c_str(), what.c_str());
        }
        snprintf(g_pr->detail, sizeof(g_pr->detail), "%.1900s", g_pr->report);
    }
    else if (WIFSIGNALED(status)) {
        int s = WTERMSIG(status);
        if (s == SIGPROF || s == SIGALRM) {
            snprintf(g_pr->cls, sizeof(g_pr->cls), "hang");
            snprintf(g_pr->detail, sizeof(g_pr->detail), "the run did not finish within its time allowance");
        }
        else {
            snprintf(g_pr->cls, sizeof(g_pr->cls), "crash/signal-%d", s);
            snprintf(g_pr->detail, sizeof(g_pr->detail), "the process died from signal %d (%s)", s, strsignal(s));
        }
    }
    else {
        snprintf(g_pr->cls, sizeof(g_pr->cls), "crash/exit-%d", WEXITSTATUS(status));
        snprintf(g_pr->detail, sizeof(g_pr->detail), "the process exited with status %d in the middle of the run", WEXITSTATUS(status));
    }
}

int wait_child(pid_t pid)
{
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {
    }
    return status;
}

// Runs of the search that go first, in the same process, when a violation needs what they left behind in it.
std::vector<uint64_t> g_prelude;
uint64_t g_prelude_seed = 0;

void search_mode(uint64_t seed, uint64_t index)
{
    g_pr->index = index;
    g_replay = false;
    g_rng = mix(mix(seed, hash_bytes(world.id, strlen(world.id))), index + 1);
}

// Starts a replay of a choice list in a forked child that reports into *pr.
pid_t start_replay(Progress* pr, const std::vector<uint64_t>& choices, bool verbose)
{
    fflush(nullptr);
    Progress* keep = g_pr;
    g_pr = pr;
    reset_run();
    pr->running = 1;
    pid_t pid = fork();
    if (pid == 0) {
        child_setup();
        g_count = false;
        for (uint64_t i : g_prelude) {
            arm_cpu_alarm(20);
            search_mode(g_prelude_seed, i);
            if (run_here()) {
                _exit(0); // not the violation that is being replayed
            }
        }
        arm_cpu_alarm(20);
        g_replay = true;
        g_verbose = verbose;
        g_in = choices.data();
        g_in_n = choices.size();
        g_pr->index = 0;
        run_here();
        _exit(0);
    }
    g_pr = keep;
    return pid;
}

bool finish_replay(Progress* pr, pid_t pid)
{
    int status = wait_child(pid);
    if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0 && !pr->running)) {
        Progress* keep = g_pr;
        g_pr = pr;
        classify_death(status);
        g_pr = keep;
    }
    return pr->violated;
}

// Replays a choice list in a forked child. Result is left in *g_pr.
bool replay_forked(const std::vector<uint64_t>& choices, bool verbose)
{
    return finish_replay(g_pr, start_replay(g_pr, choices, verbose));
}

void write_replay(const char* path, const std::string& cls, const std::string& detail, uint64_t seed, uint64_t index, uint64_t hash,
                  const std::vector<uint64_t>& choices, size_t original, const std::string& trace)
{
    FILE* f = fopen(path, "w");
    if (!f) {
        perror(path);
        _exit(4);
    }
    fprintf(f, "property %s\nclass %s\nseed %llu\nrun %llu\nhash %016llx\noriginal_choices %zu\n", world.id, cls.c_str(),
            (unsigned long long)seed, (unsigned long long)index, (unsigned long long)hash, original);
    if (!g_prelude.empty()) {
        fprintf(f, "prelude %zu", g_prelude.size());
        for (uint64_t i : g_prelude) {
            fprintf(f, " %llu", (unsigned long long)i);
        }
        fprintf(f, "\n");
    }
    fprintf(f, "choices %zu\n", choices.size());
    for (size_t i = 0; i < choices.size(); ++i) {
        fprintf(f, "%llu%c", (unsigned long long)choices[i], (i + 1) % 24 == 0 ? '\n' : ' ');
    }
    fprintf(f, "\nend\n--- violation\n%s\n--- trace (schedule, operations, faults)\n%s", detail.c_str(), trace.c_str());
    fclose(f);
}

std::string one_line(const std::string& s)
{
    std::string r;
    for (char c : s) {
        r += (c == '\n' || c == '\r') ? ' ' : c;
    }
    return r;
}

std::string json_str(const std::string& s)
{
    std::string r = "\"";
    char t[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += static_cast<char>(c);
        }
        else if (c < 0x20 || c >= 0x7f) {
            snprintf(t, sizeof(t), "\\u%04x", c);
            r += t;
        }
        else {
            r += static_cast<char>(c);
        }
    }
    return r + "\"";
}

Progress* new_progress()
{
    void* p = mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        exit(4);
    }
    return static_cast<Progress*>(p);
}

// Delta-debugging over the choice sequence: drop chunks, zero chunks, lower single values. Candidates are tried a few at a
// time in parallel; the first that works, in candidate order, is taken.
struct Minimiser
{
    using Choices = std::vector<uint64_t>;
    std::string cls;
    Choices best;
    double deadline;
    uint64_t tries = 0;
    static constexpr size_t Par = 8;
    Progress* prs[Par] = {};

    bool improves(Progress* pr)
    {
        if (!pr->violated || cls != pr->cls || pr->overflow) {
            return false;
        }
        // canonical form: exactly the choices consumed, trailing zeros removed (they are the default)
        Choices used(pr->choices, pr->choices + pr->n_choices);
        while (!used.empty() && used.back() == 0) {
            used.pop_back();
        }
        if (used.size() < best.size() || (used.size() == best.size() && used < best)) {
            best = used;
            return true;
        }
        return false;
    }
    // Index of the first candidate that improves, or SIZE_MAX.
    size_t test(const std::vector<Choices>& cands)
    {
        pid_t pids[Par];
        for (size_t i = 0; i < cands.size(); ++i) {
            if (!prs[i]) {
                prs[i] = new_progress();
            }
            pids[i] = start_replay(prs[i], cands[i], false);
            ++tries;
        }
        size_t won = SIZE_MAX;
        for (size_t i = 0; i < cands.size(); ++i) {
            finish_replay(prs[i], pids[i]);
            if (won == SIZE_MAX && improves(prs[i])) {
                won = i;
            }
        }
        return won;
    }
    // Positions 0, step, 2*step ...; `make` edits a copy of best and says whether it is a candidate.
    template <typename F>
    bool sweep(size_t stride, bool stay, F make)
    {
        bool progress = false;
        size_t i = 0;
        while (i < best.size() && now_s() < deadline) {
            std::vector<Choices> cands;
            std::vector<size_t> at;
            size_t j = i;
            for (; j < best.size() && cands.size() < Par; j += stride) {
                Choices c = best;
                if (make(c, j)) {
                    cands.push_back(std::move(c));
                    at.push_back(j);
                }
            }
            if (cands.empty()) {
                break;
            }
            size_t won = test(cands);
            if (won == SIZE_MAX) {
                i = j;
            }
            else {
                progress = true;
                i = stay ? at[won] : at[won] + stride;
            }
        }
        return progress;
    }
    void run()
    {
        bool progress = true;
        while (progress && now_s() < deadline) {
            progress = false;
            for (size_t chunk = std::max<size_t>(best.size() / 2, 1);; chunk /= 2) {
                progress |= sweep(chunk, true, [&](Choices& c, size_t j) {
                    c.erase(c.begin() + static_cast<long>(j), c.begin() + static_cast<long>(std::min(j + chunk, c.size())));
                    return true;
                });
                if (chunk <= 1) {
                    break;
                }
            }
            for (size_t chunk = std::max<size_t>(best.size() / 2, 1);; chunk /= 2) {
                progress |= sweep(chunk, false, [&](Choices& c, size_t j) {
                    bool any = false;
                    for (size_t k = j; k < std::min(j + chunk, c.size()); ++k) {
                        any |= c[k] != 0;
                        c[k] = 0;
                    }
                    return any;
                });
                if (chunk <= 1) {
                    break;
                }
            }
            for (int how = 0; how < 2; ++how) {
                progress |= sweep(1, true, [&](Choices& c, size_t j) {
                    if (c[j] <= 1) {
                        return false;
                    }
                    c[j] = how ? c[j] - 1 : c[j] / 2;
                    return true;
                });
            }
        }
    }
};

// One worker: runs indices w, w+W, ... in forked children of `batch` runs.
void worker(uint64_t seed, uint64_t start, uint64_t w, uint64_t W, uint64_t count, double deadline)
{
    uint64_t idx = start + w;
    while (idx < count && idx < g_sh->min_violation && now_s() < deadline) {
        g_pr->index = idx;
        g_pr->first = idx;
        g_pr->done_runs = 0;
        g_pr->running = 0;
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
            child_setup();
            for (uint64_t b = 0; b < world.batch && idx < count && idx < g_sh->min_violation && now_s() < deadline; ++b, idx += W) {
                arm_cpu_alarm(20);
                search_mode(seed, idx);
                if (run_here()) {
                    _exit(10);
                }
                g_pr->done_runs++;
            }
            _exit(0);
        }
        int status = wait_child(pid);
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && !g_pr->running) {
            idx += g_pr->done_runs * W;
            if (g_pr->done_runs == 0) {
                break;
            }
            continue;
        }
        if (!(WIFEXITED(status) && WEXITSTATUS(status) == 10)) {
            classify_death(status);
        }
        // keep the lowest violating index of this worker; other workers stop beyond it
        uint64_t cur = g_sh->min_violation;
        while (g_pr->index < cur && !g_sh->min_violation.compare_exchange_weak(cur, g_pr->index)) {
        }
        return;
    }
    g_pr->violated = 0;
}

std::map<std::string, uint64_t> counters(Counter* tab)
{
    std::map<std::string, uint64_t> m;
    for (size_t i = 0; i < MaxCounters; ++i) {
        if (tab[i].name[0]) {
            m[tab[i].name] += tab[i].n;
        }
    }
    return m;
}

int search(uint64_t seed, uint64_t count, double secs, uint64_t W, const char* out_path, const char* replay_path)
{
    double t0 = now_s();
    double deadline = t0 + secs;
    std::vector<Progress*> prs;
    for (uint64_t w = 0; w < W; ++w) {
        prs.push_back(new_progress());
    }
    std::string cls, detail;
    int rc = 0;
    size_t original = 0, minimal = 0;
    uint64_t tries = 0;
    uint64_t bad_index = 0;
    uint64_t start = 0;
    uint64_t unreproducible = 0;
    double t_search = 0;
    for (;;) {
        g_sh->min_violation = UINT64_MAX;
        std::vector<pid_t> pids;
        fflush(nullptr);
        double t1 = now_s();
        for (uint64_t w = 0; w < W; ++w) {
            pid_t pid = fork();
            if (pid == 0) {
                g_pr = prs[w];
                g_pr->violated = 0;
                worker(seed, start, w, W, count, deadline);
                _exit(0);
            }
            pids.push_back(pid);
        }
        for (pid_t p : pids) {
            wait_child(p);
        }
        t_search += now_s() - t1;
        Progress* bad = nullptr;
        for (auto* p : prs) {
            if (p->violated && (!bad || p->index < bad->index)) {
                bad = p;
            }
        }
        if (!bad) {
            rc = unreproducible ? 3 : 0;
            break;
        }
        cls = bad->cls;
        bad_index = bad->index;
        detail = bad->detail;
        std::vector<uint64_t> choices(bad->choices, bad->choices + bad->n_choices);
        original = choices.size();
        // Gate: the same choices in two fresh processes give the same violation and the same event log. (The first sighting
        // had the heap of the runs before it; a violation that needs that is not accepted and the search goes on.)
        if (!g_pr) {
            g_pr = new_progress();
        }
        std::string first_cls;
        uint64_t first_hash = 0;
        auto gate = [&] {
            bool same = bad->overflow == 0;
            for (int i = 0; i < 2 && same; ++i) {
                same = replay_forked(choices, false) && g_pr->overflow == 0;
                if (i == 0) {
                    first_cls = g_pr->cls;
                    first_hash = g_pr->log_hash;
                }
                else {
                    same = same && first_cls == g_pr->cls && (first_hash == g_pr->log_hash || first_cls == "hang"); // (ended by the clock)
                }
            }
            return same;
        };
        g_prelude.clear();
        g_prelude_seed = seed;
        bool same = gate();
        if (!same && bad->first < bad_index) {
            // not on its own: with the runs that went before it in its process
            for (uint64_t i = bad->first; i < bad_index; i += W) {
                g_prelude.push_back(i);
            }
            same = gate();
            for (size_t chunk = std::max<size_t>(g_prelude.size() / 2, 1); same; chunk /= 2) {
                for (size_t j = 0; j < g_prelude.size() && now_s() < deadline + 20;) {
                    auto keep = g_prelude;
                    g_prelude.erase(g_prelude.begin() + static_cast<long>(j),
                                    g_prelude.begin() + static_cast<long>(std::min(j + chunk, g_prelude.size())));
                    std::string c = first_cls;
                    if (!gate() || c != first_cls) {
                        g_prelude = keep;
                        first_cls = c;
                        j += chunk;
                    }
                }
                if (chunk <= 1) {
                    break;
                }
            }
        }
        if (!same) {
            fprintf(stderr, "NOT REPRODUCIBLE run=%llu class=%s (replay: %s) detail: %s\n", (unsigned long long)bad_index, cls.c_str(),
                    g_pr->cls, detail.c_str());
            if (++unreproducible > 20 || now_s() > deadline) {
                rc = 3;
                break;
            }
            start = bad_index + 1;
            continue;
        }
        rc = 1;
        cls = first_cls;
        Minimiser m;
        m.cls = cls;
        m.best = choices;
        m.deadline = now_s() + 40;
        m.run();
        tries = m.tries;
        minimal = m.best.size();
        replay_forked(m.best, true);
        detail = g_pr->detail;
        if (cls != g_pr->cls) {
            fprintf(stderr, "minimised choices do not reproduce: %s vs %s\n", cls.c_str(), g_pr->cls);
            m.best = choices;
            replay_forked(m.best, true);
            detail = g_pr->detail;
        }
        write_replay(replay_path, cls, detail, seed, bad_index, g_pr->log_hash, m.best, original, std::string(g_pr->text, g_pr->text_len));
        break;
    }
    FILE* f = fopen(out_path, "w");
    if (!f) {
        perror(out_path);
        return 4;
    }
    fprintf(f, "{\"rc\":%d,\"class\":%s,\"detail\":%s,\"violating_run\":%llu,\"original_choices\":%zu,\"minimal_choices\":%zu,\"minimise_tries\":%llu,\n",
            rc, json_str(cls).c_str(), json_str(one_line(detail)).c_str(), (unsigned long long)bad_index, original, minimal,
            (unsigned long long)tries);
    fprintf(f, "\"unreproducible\":%llu,\"runs\":%llu,\"requested\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%llu,\"steps\":%llu,\"events\":%llu,\"draws\":%llu,\"states\":%llu,\"interleavings\":%llu,\"search_s\":%.3f,\"workers\":%llu,\n",
            (unsigned long long)unreproducible, (unsigned long long)g_sh->runs, (unsigned long long)count, (unsigned long long)g_sh->nontrivial, (unsigned long long)g_sh->distinct,
            (unsigned long long)g_sh->steps, (unsigned long long)g_sh->events, (unsigned long long)g_sh->draws,
            (unsigned long long)g_sh->states, (unsigned long long)g_sh->interleavings, t_search, (unsigned long long)W);
    auto dump = [&](const char* name, Counter* tab) {
        fprintf(f, "\"%s\":{", name);
        bool first = true;
        for (auto& [k, v] : counters(tab)) {
            fprintf(f, "%s%s:%llu", first ? "" : ",", json_str(k).c_str(), (unsigned long long)v);
            first = false;
        }
        fprintf(f, "},\n");
    };
    dump("faults", g_sh->faults);
    dump("probes", g_sh->probes);
    fprintf(f, "\"samples\":[");
    for (uint64_t i = 0; i < std::min<uint64_t>(g_sh->n_samples, 6); ++i) {
        fprintf(f, "%s%s", i ? "," : "", json_str(g_sh->samples[i]).c_str());
    }
    fprintf(f, "],\n\"rule\":%s}\n", json_str(world.rule).c_str());
    fclose(f);
    return rc;
}

int replay_file(const char* path)
{
    std::ifstream in(path);
    std::string word, cls;
    uint64_t hash = 0;
    size_t n = 0;
    std::vector<uint64_t> choices;
    while (in >> word) {
        if (word == "class") {
            in >> cls;
            std::string rest;
            std::getline(in, rest);
            cls += rest;
        }
        else if (word == "hash") {
            std::string h;
            in >> h;
            hash = strtoull(h.c_str(), nullptr, 16);
        }
        else if (word == "seed") {
            in >> g_prelude_seed;
        }
        else if (word == "prelude") {
            in >> n;
            g_prelude.resize(n);
            for (auto& c : g_prelude) {
                in >> c;
            }
        }
        else if (word == "choices") {
            in >> n;
            choices.resize(n);
            for (auto& c : choices) {
                in >> c;
            }
        }
        else if (word == "end") {
            break;
        }
        else {
            std::getline(in, word);
        }
    }
    g_pr = new_progress();
    bool v = replay_forked(choices, true);
    fwrite(g_pr->text, 1, g_pr->text_len, stdout);
    if (!v) {
        printf("REPLAY: no violation\n");
        return 0;
    }
    bool same = cls == g_pr->cls && hash == g_pr->log_hash;
    printf("REPLAY: class=%s hash=%016llx %s\n%s\n", g_pr->cls, (unsigned long long)g_pr->log_hash,
           same ? "(same class and event log as recorded)" : "(DIFFERS from the recorded class or event log)", g_pr->detail);
    return same ? 1 : 3;
}

// Determinism self-test: every run of the range twice, in different processes; prints run index and log hash.
int hashes(uint64_t seed, uint64_t from, uint64_t count, uint64_t stride)
{
    g_pr = new_progress();
    for (uint64_t i = from; i < count; i += stride) {
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
            child_setup();
            g_count = false;
            search_mode(seed, i);
            run_here();
            _exit(0);
        }
        int st = wait_child(pid);
        printf("%llu %016llx %llu %d %s\n", (unsigned long long)i, (unsigned long long)g_pr->log_hash, (unsigned long long)g_pr->n_choices,
               st ? 1 : 0, g_pr->violated ? g_pr->cls : "-");
    }
    return 0;
}
} // namespace
} // namespace sim

int main(int argc, char** argv)
{
    using namespace sim;
    // Same addresses in every process, so that even undefined behaviour replays as far as it can.
    if (!getenv("SIM_NO_ASLR")) {
        setenv("SIM_NO_ASLR", "1", 1);
        int p = personality(0xffffffff);
        if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(static_cast<unsigned long>(p) | ADDR_NO_RANDOMIZE) != -1) {
            execv("/proc/self/exe", argv);
        }
    }
    std::map<std::string, std::string> o;
    for (int i = 1; i + 1 < argc; i += 2) {
        o[argv[i]] = argv[i + 1];
    }
    auto num = [&](const char* k, double d) { return o.count(k) ? strtod(o[k].c_str(), nullptr) : d; };
    g_tier = o["--tier"] == "thorough" ? 1 : 0;
    g_sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    g_sh->min_violation = UINT64_MAX;
    signal(SIGPIPE, SIG_IGN);
    if (o.count("--replay")) {
        return replay_file(o["--replay"].c_str());
    }
    uint64_t seed = strtoull(o.count("--seed") ? o["--seed"].c_str() : "1", nullptr, 10);
    uint64_t runs = static_cast<uint64_t>(num("--runs", 1000));
    if (o.count("--hashes")) {
        return hashes(seed, static_cast<uint64_t>(num("--from", 0)), runs, static_cast<uint64_t>(num("--stride", 1)));
    }
    return search(seed, runs, num("--secs", 60), static_cast<uint64_t>(num("--workers", 8)), o["--out"].c_str(), o["--save"].c_str());
}
