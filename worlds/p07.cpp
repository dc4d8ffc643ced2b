// C07: histories of operations on a few documents, failing ones in between, against the tree model.
#include "core.hpp"
#include "ops.hpp"

namespace
{
using namespace sim;
using ref::RV;

void run()
{
    const size_t n = 2 + draw(2);
    std::vector<RV> m;
    std::vector<json::value> docs(n);
    for (size_t i = 0; i < n; ++i) {
        ref::Gen g;
        g.max_nodes = 12;
        m.push_back(ref::gen(g, draw(4) != 0));
        docs[i] = bridge::plain(m[i]);
        note("d%zu = %s", i, ref::show(m[i]).c_str());
    }
    const size_t steps = 4 + draw(tier() ? 60 : 24);
    uint64_t h = 7;
    size_t changed = 0, failed = 0;
    for (size_t k = 0; k < steps; ++k) {
        ops::Step s = ops::gen(m);
        note("%zu: %s", k, ops::show(s).c_str());
        const std::vector<RV> before = m;
        ops::Out want = ops::model(s, m);
        ops::Out got = ops::real(s, docs);
        step();
        if (!(got == want)) {
            violate(std::string("result/") + ops::name(s.op), ops::show(s) + " reported " + ops::show(got) + " instead of " + ops::show(want));
        }
        for (size_t i = 0; i < n; ++i) {
            bridge::expect_value(docs[i], m[i], "document " + std::to_string(i) + " after " + ops::name(s.op));
        }
        if (want.failed) {
            fault("operation of the wrong kind or out of range");
            ++failed;
        }
        changed += m != before;
        probe(ops::name(s.op));
        h = mix(h, ref::hash(m[0]));
        state(mix(ref::hash(m[0]), ref::hash(m[1])));
    }
    note("final state %016llx", static_cast<unsigned long long>(h));
    if (changed >= 2) {
        nontrivial();
    }
    sample(std::to_string(steps) + " operations on " + std::to_string(n) + " documents, " + std::to_string(failed) + " of them refused; document 0 ends as "
           + ref::show(m[0], 200));
}
} // namespace

const sim::World sim::world { "C07",
                              "each run draws 2-3 documents and a history of operations over all public operations (with drawn targets, own-part aliases and "
                              "overload/access style), refused operations in between; contents and every reported result are compared with the tree "
                              "model after each operation; non-trivial: at least two operations changed a document",
                              run, true, 256 };
