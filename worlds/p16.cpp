// C16: stack space grows with the nesting depth only, and not by much per level.
#include "growing.hpp"
#include "stack.hpp"
#include "work.hpp"

using namespace sim;
using namespace work;

namespace
{
constexpr size_t Fixed = 64 * 1024, PerLevel = 2048;


Cost limited(const Plan& p, const std::string& text, const std::optional<json::value>& doc, size_t depth, const Shortage& shortage)
{
    return perform(p, text, doc, [&](Cost& c, const std::function<void()>& fn) {
        stack::on(Fixed + PerLevel * depth, [&] {
            shortage.arm();
            try {
                fn();
            }
            catch (...) {
                mem::disarm();
                throw;
            }
            Shortage::end(c);
        });
    });
}

// A document of its own: n levels of any mixture.
struct Deep
{
    std::string name, text;
    size_t levels = 0;
};
Deep deep_document()
{
    Deep d;
    static const char* const opens[] = { "[", "{\"k\":", "[1,\"two\",", "{\"a\":0,\"b\":", "[[],{},", "{\"\":", "{\"long name that is not held in place\":", "[ \n", "[\"\xc3\xa9\\u0041\"," };
    static const char* const closes[] = { "]", "}", "]", ",\"c\":[]}", "]", "}", "}", "\t]", ",null]" };
    std::vector<size_t> kinds;
    for (uint64_t k = 1 + draw(4); k--;) {
        kinds.push_back(draw(std::size(opens)));
    }
    d.levels = chance(1, 8) ? range(2000, tier() ? 40000 : 6000) : range(1, 1000);
    const bool mixed = draw(3) == 0;
    const uint64_t salt = mixed ? draw(1 << 20) : 0;
    std::string close;
    std::vector<size_t> order;
    for (size_t i = 0; i < d.levels; ++i) {
        order.push_back(kinds[mixed ? mix(salt, i) % kinds.size() : i % kinds.size()]);
        d.text += opens[order.back()];
    }
    d.text += chance(1, 4) ? growing::soup(2) : "0";
    const uint64_t cut = chance(1, 4) ? draw(d.levels + 1) : 0;
    for (size_t i = d.levels; i-- > cut;) {
        d.text += closes[order[i]];
    }
    d.name = std::to_string(d.levels) + " levels of";
    for (size_t k : kinds) {
        d.name += std::string(" ") + opens[k];
    }
    d.name += cut ? " (not all closed)" : "";
    return d;
}

void one()
{
    ref::unusual_sizes = false;
    std::string name, text;
    if (draw(2)) {
        const Deep d = deep_document();
        name = d.name;
        text = d.text;
    }
    else {
        const growing::Family f = growing::family();
        const size_t n = f.deep ? range(20, 4000) : range(200, 20000);
        name = f.name + ", n = " + std::to_string(n);
        text = f.text(n);
    }
    Plan p;
    p.op = static_cast<Op>(draw(static_cast<uint64_t>(Op::N)));
    p.form = draw(60);
    p.chunk = pick(1, 3, 64, 512, 8192);
    p.jsonc = draw(2);
    p.damage = chance(1, 3);
    const bool fail = chance(1, 3);
    std::optional<json::value> doc;
    if (p.op > Op::Stream) {
        doc = p.jsonc ? json::parsec(text) : json::parse(text);
        if (!doc) {
            p.op = p.form & 8 ? Op::Parse : Op::Stream;
            fault("malformed text");
        }
    }
    size_t depth = nesting(text);
    note("%s (form %d, %s, chunk %d%s) of %s: %zu bytes, %zu levels", op_names[static_cast<int>(p.op)], (int)p.form, p.jsonc ? "with comments" : "strict", (int)p.chunk,
         p.damage ? ", device error" : "", show(name, 400).c_str(), text.size(), depth);
    const Cost c = limited(p, text, doc, depth, Shortage());
    const Cost usual = perform(p, text, doc, [](Cost&, const std::function<void()>& fn) { fn(); });
    SIM_CHECK(c.result == usual.result && !c.failed, "result", "the result on the small stack is another one than with plenty of stack");
    probe(op_names[static_cast<int>(p.op)]);
    probe(depth >= 1000 ? "1000 levels and more" : depth >= 100 ? "100 to 999 levels" : "less than 100 levels");
    fault("stack limit (just what is allowed)");
    fault("device error", p.op == Op::Stream && p.damage);
    for (int tries = fail && c.allocs ? 2 : 0; tries--;) {
        const Cost broken = limited(p, text, doc, depth, Shortage::some(c));
        fault("operation ended by a failed allocation", broken.failed);
    }
    step(text.size());
    state(mix(hash_str(text), mix(static_cast<uint64_t>(p.op), p.form)));
    if (depth >= 50 || text.size() >= 2000) {
        nontrivial();
    }
    sample(std::string(op_names[static_cast<int>(p.op)]) + " of " + show(name, 150));
    if (doc) { // (also destroyed there)
        stack::on(Fixed + PerLevel * depth, [&] { doc.reset(); });
    }
}
void run()
{
    stack::large(one);
}
} // namespace

const sim::World sim::world { "C16",
                              "each run draws a text (1 to 1000 levels, sometimes thousands, of any mixture of arrays and objects; wide ones, long strings, comments, "
                              "white space; well formed or not) and an operation and performs it on a stack of exactly 64 KiB + 2 KiB for each level; split transfers, "
                              "device errors and failing allocations; non-trivial: at least 50 levels or 2000 bytes",
                              run, true, 64 };
