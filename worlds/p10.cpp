// C10: threads that each work on documents of their own.
#include "programs.hpp"
#include "sched.hpp"

namespace
{
using namespace programs;

void body(int t, void* arg)
{
    Group& w = *static_cast<Group*>(arg);
    Thread& me = w.threads[static_cast<size_t>(t)];
    try {
        begin(w, me);
        for (Item& it : me.items) {
            item(me, it, [&](std::vector<json::value>& docs, bool check) { perform(w, me, it, docs, check); });
        }
        if (t % 2) {
            me.docs.clear(); // destroyed by the thread
        }
    }
    catch (const Violation& v) {
        threads::keep(v);
    }
    catch (const std::exception& e) {
        violate_later("unexpected-exception", std::string("an exception escaped to a thread's program: ") + e.what());
    }
}

void run()
{
    ref::unusual_sizes = chance(1, 20);
    const bool deep = chance(1, 25);
    Group w;
    const size_t n_threads = 2 + draw(3);
    {
        ref::Gen g;
        g.max_nodes = 10;
        w.model = ref::gen(g, draw(4) != 0);
        if (deep) { // (every thread goes down and up a long way)
            w.model = ref::deepen(std::move(w.model), range(15, 500));
        }
        w.original = draw(2) ? bridge::build(w.model) : bridge::plain(w.model);
        note("original = %s", ref::show(w.model, 600).c_str());
    }
    w.threads.resize(n_threads);
    draw_habit(w);
    uint64_t h = 10;
    size_t items = 0;
    const size_t common_type = draw(universe::types); // threads tend to use the same types
    for (size_t t = 0; t < n_threads; ++t) {
        items += draw_program(w, t, deep, common_type);
        h = mix(h, ref::hash(w.threads[t].items.back().after[0]));
    }
    sched::run(static_cast<int>(n_threads), body, &w, 400000000);
    threads::job = nullptr;
    checkpoint();
    bridge::expect_value(w.original, w.model, "the common original after all");
    for (size_t t = 0; t < n_threads; ++t) {
        Thread& me = w.threads[t];
        for (size_t i = 0; i < me.docs.size(); ++i) {
            bridge::expect_value(me.docs[i], me.items.back().after[i], "a thread's document after all");
        }
        for (Item& it : me.items) {
            if (it.what == What::Print) {
                const std::string solo = print(bridge::plain(it.after[static_cast<size_t>(it.doc)]), it.form);
                if (solo != it.wrote) {
                    violate("text", "a thread wrote " + show(it.wrote, 300) + " for what is " + show(solo, 300) + " when written alone");
                }
            }
        }
    }
    state(h);
    nontrivial();
    sample(std::to_string(n_threads) + " threads, " + std::to_string(items) + " operations on documents of their own, copies of " + ref::show(w.model, 200));
}
} // namespace

const sim::World sim::world { "C10",
                              "each run draws 2-4 threads with 1-2 documents of their own each (some copies of a common original, made before or by the "
                              "thread) and 1-6 operations (history steps, parsing of good and damaged text, printing, typed conversion of values and "
                              "messages, fresh copies), some with a failing allocation or refused, and a schedule that may switch threads at every basic "
                              "block, load and store; results are compared with the model and with the same operation done alone, races are reported by "
                              "the race detector; non-trivial: every run (two threads or more)",
                              run, true, 1 };
