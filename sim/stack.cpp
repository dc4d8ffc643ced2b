#include "stack.hpp"

#include <csignal>
#include <cstdint>
#include <cstring>
#include <exception>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>

namespace stack
{
namespace
{
struct Area
{
    char* low = nullptr; // nothing below `floor` may be touched
    char* floor = nullptr;
    char* high = nullptr;
    ucontext_t back, there;
    std::exception_ptr error;
    const std::function<void()>* fn = nullptr;
};
Area small, big;
Area* current = nullptr;
constexpr size_t Reserve = size_t(1) << 30, Page = 4096;

void enter()
{
    Area* const a = current;
    try {
        (*a->fn)();
    }
    catch (...) {
        a->error = std::current_exception();
    }
    swapcontext(&a->there, &a->back);
}
void on_fault(int sig, siginfo_t* info, void*)
{
    const char* const p = static_cast<char*>(info->si_addr);
    if (current == &small && p >= small.low && p < small.floor) {
        char text[120];
        size_t n = static_cast<size_t>(small.high - small.floor), i = 0;
        const char head[] = "more stack than the granted ", tail[] = " bytes was needed";
        char digits[24];
        size_t k = 0;
        for (; n || !k; n /= 10) {
            digits[k++] = static_cast<char>('0' + n % 10);
        }
        memcpy(text, head, sizeof head - 1);
        i = sizeof head - 1;
        while (k) {
            text[i++] = digits[--k];
        }
        memcpy(text + i, tail, sizeof tail);
        sim::fatal("stack", text);
    }
    signal(sig, SIG_DFL);
}
void reserve(Area& a)
{
    if (a.low) {
        return;
    }
    a.low = static_cast<char*>(mmap(nullptr, Reserve, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    a.high = a.low + Reserve;
    a.floor = a.high;
    if (&a == &small) {
        static char alternative[65536];
        stack_t s {};
        s.ss_sp = alternative;
        s.ss_size = sizeof alternative;
        sigaltstack(&s, nullptr);
        struct sigaction sa {};
        sa.sa_sigaction = on_fault;
        sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
        sigaction(SIGSEGV, &sa, nullptr);
    }
}
void grant(Area& a, size_t bytes)
{
    char* const floor = a.high - (bytes + Page - 1) / Page * Page;
    if (floor != a.floor) {
        mprotect(a.low, static_cast<size_t>(floor - a.low), PROT_NONE);
        mprotect(floor, static_cast<size_t>(a.high - floor), PROT_READ | PROT_WRITE);
        a.floor = floor;
    }
}
void run(Area& a, const std::function<void()>& fn)
{
    Area* const outer = current;
    current = &a;
    a.fn = &fn;
    a.error = nullptr;
    getcontext(&a.there);
    a.there.uc_stack.ss_sp = a.floor;
    a.there.uc_stack.ss_size = static_cast<size_t>(a.high - a.floor);
    a.there.uc_link = nullptr;
    makecontext(&a.there, enter, 0);
    swapcontext(&a.back, &a.there);
    current = outer;
    if (a.error) {
        std::exception_ptr e;
        std::swap(e, a.error);
        std::rethrow_exception(e);
    }
}
} // namespace
void on(size_t bytes, const std::function<void()>& fn)
{
    reserve(small);
    grant(small, bytes);
    run(small, fn);
}
void large(const std::function<void()>& fn)
{
    reserve(big);
    grant(big, Reserve - Page);
    run(big, fn);
}
} // namespace stack
