// C19: the number of steps grows with the size of the work, not faster.
#include "growing.hpp"
#include "steps.hpp"
#include "work.hpp"

using namespace sim;
using namespace work;

namespace
{
Cost measure(const Plan& p, const std::string& text, const std::optional<json::value>& doc, const Shortage& shortage)
{
    return perform(p, text, doc, [&](Cost& c, const std::function<void()>& fn) {
        struct Off
        {
            ~Off()
            {
                steps::stop();
                mem::disarm();
            }
        } off;
        shortage.arm();
        steps::start(4000 * c.size + 2000000);
        fn();
        c.steps = steps::stop();
        Shortage::end(c);
    });
}

void run()
{
    ref::unusual_sizes = false;
    const growing::Family f = growing::family();
    Plan p;
    p.op = static_cast<Op>(draw(static_cast<uint64_t>(Op::N)));
    p.form = draw(60);
    p.chunk = pick(1, 3, 64, 512, 8192);
    p.jsonc = draw(2);
    p.damage = chance(1, 3);
    const bool fail = chance(1, 4);
    const size_t n = !f.deep && chance(1, 20) ? range(3000, 15000) : range(200, 600);
    note("%s (form %d, %s, chunk %d%s) of %s, n = %zu", op_names[static_cast<int>(p.op)], (int)p.form, p.jsonc ? "with comments" : "strict", (int)p.chunk,
         p.damage ? ", device error" : "", show(f.name, 400).c_str(), n);
    const std::string texts[3] = { f.text(n), f.text(2 * n), f.text(4 * n) };
    const std::string& large = texts[2];
    std::optional<json::value> docs[3];
    bool all = true;
    for (int i = 0; i < 3; ++i) {
        if (p.op > Op::Stream) {
            docs[i] = p.jsonc ? json::parsec(texts[i]) : json::parse(texts[i]);
            all = all && docs[i];
        }
    }
    if (!all) {
        p.op = p.form & 8 ? Op::Parse : Op::Stream;
        note("not a document: only loaded");
        fault("malformed text");
    }
    Cost c[3];
    double rate[3];
    for (int i = 0; i < 3; ++i) {
        c[i] = measure(p, texts[i], docs[i], Shortage());
        rate[i] = (static_cast<double>(c[i].steps) + 500) / static_cast<double>(c[i].size);
        step(c[i].steps);
        note("size %llu: %llu steps, %.1f per byte", (unsigned long long)c[i].size, (unsigned long long)c[i].steps, rate[i]);
    }
    const Cost& c4 = c[2];
    probe(op_names[static_cast<int>(p.op)]);
    fault("split transfer (stream refills)", p.op == Op::Stream ? large.size() / p.chunk : 0);
    fault("device error", p.op == Op::Stream && p.damage);
    // (a single jump may be where the text begins to make sense; growth goes on)
    if (rate[1] > 1.4 * rate[0] && rate[2] > 1.4 * rate[1]) {
        char t[300];
        snprintf(t, sizeof t, "%s needs %llu steps for %llu bytes, %llu for %llu, %llu for %llu: ", op_names[static_cast<int>(p.op)], (unsigned long long)c[0].steps,
                 (unsigned long long)c[0].size, (unsigned long long)c[1].steps, (unsigned long long)c[1].size, (unsigned long long)c[2].steps,
                 (unsigned long long)c[2].size);
        violate("growth", t + show(f.name, 300));
    }
    if (fail && c4.allocs) {
        const Cost broken = measure(p, large, docs[2], Shortage::some(c4));
        fault("operation ended by a failed allocation", broken.failed);
        note("%llu steps", (unsigned long long)broken.steps);
        if (broken.steps > 2 * c4.steps + 50000) {
            violate("growth", std::string(op_names[static_cast<int>(p.op)]) + " takes " + std::to_string(broken.steps) + " steps with a failing allocation, " +
                                  std::to_string(c4.steps) + " without: " + show(f.name, 300));
        }
    }
    state(mix(hash_str(texts[0]), mix(static_cast<uint64_t>(p.op), p.form)));
    nontrivial();
    sample(std::string(op_names[static_cast<int>(p.op)]) + " of " + show(f.name, 150));
}
} // namespace

const sim::World sim::world { "C19",
                              "each run draws a family of texts (any few tokens repeated, long strings and numbers, white space and comments, deep, wide; well "
                              "formed or not) and an operation, performs it for n, 2n and 4n units and counts basic blocks, bytes moved and allocations; split "
                              "transfers, device errors and failing allocations; non-trivial: every run",
                              run, true, 64 };
