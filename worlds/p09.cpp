// C09: threads that read the same documents.
#include "core.hpp"
#include "load.hpp"
#include "ops.hpp"
#include "sched.hpp"
#include "skew.hpp"
#include "threads.hpp"

#include <sstream>

namespace universe // (types in the other units)
{
void dispatch_any(size_t i);
extern const size_t types;
}

namespace
{
using namespace sim;
using ref::K;
using ref::RV;

enum class What
{
    Query, // an operation of the query kind, with its expected result
    Typed,
    Text,
    Stream,
    Copy, // copy, change the copy, drop it
    Join, // a new document from two shared ones
    N
};
struct Item
{
    What what;
    ops::Step s;
    ops::Out want;
    size_t type = 0;
    ops::Path path; // node read by a typed item, Text, Stream, Copy
    int doc = 0;
    RV node;
    std::vector<ops::Step> changes;
    std::vector<RV> after; // of a Copy
    uint64_t form = 0;
    uint64_t fail_at = 0;
    bool lasting = false;
    bool completed = false;
    bool refused = false; // by the stream
    std::string text;
};
struct Thread
{
    std::vector<Item> items;
};
struct World
{
    std::vector<json::value> docs;
    std::vector<RV> model;
    std::vector<Thread> threads;
};

std::string text_of(const json::value& v, uint64_t form)
{
    switch (form % 6) {
    case 0:
        return v.to_string();
    case 1:
        return v.format();
    case 2:
        return v.format(form % 9);
    case 3:
        return v.dumps();
    case 4:
        return v.dumps(form % 7);
    default:
        return v.is_array() ? v.as_array().to_string() : v.is_object() ? v.as_object().format() : v.to_string();
    }
}
// (a stream keeps an exception to itself and fails)
std::optional<std::string> stream_of(const json::value& v, uint64_t form)
{
    std::ostringstream os;
    if (form % 3 == 1 && v.is_array()) {
        os << v.as_array();
    }
    else if (form % 3 == 1 && v.is_object()) {
        os << v.as_object();
    }
    else {
        os << v;
    }
    return os ? std::optional<std::string>(os.str()) : std::nullopt;
}

void perform(World& w, Item& it)
{
    switch (it.what) {
    case What::Query: {
        ops::Out got = ops::real(it.s, w.docs);
        if (!(got == it.want)) {
            violate(std::string("result/") + ops::name(it.s.op), ops::show(it.s) + " reported " + ops::show(got) + " instead of " + ops::show(it.want));
        }
        break;
    }
    case What::Typed: {
        threads::Job j;
        j.what = threads::Do::Read;
        j.node = &ops::cat(w.docs[static_cast<size_t>(it.doc)], it.path);
        j.want = &it.node;
        j.form = it.form;
        threads::job = &j;
        universe::dispatch_any(it.type);
        threads::job = nullptr;
        break;
    }
    case What::Text:
        it.text = text_of(ops::cat(w.docs[static_cast<size_t>(it.doc)], it.path), it.form);
        break;
    case What::Stream:
        if (auto t = stream_of(ops::cat(w.docs[static_cast<size_t>(it.doc)], it.path), it.form)) {
            it.text = std::move(*t);
        }
        else {
            it.refused = true;
        }
        break;
    case What::Copy: {
        std::vector<json::value> own;
        const json::value& x = ops::cat(w.docs[static_cast<size_t>(it.doc)], it.path);
        if (it.form % 3 == 1 && x.is_array()) {
            json::array a = x.as_array();
            own.emplace_back(std::move(a));
        }
        else if (it.form % 3 == 1 && x.is_object()) {
            json::object o = x.as_object();
            own.emplace_back(std::move(o));
        }
        else {
            own.push_back(x);
        }
        for (size_t i = 0; i < it.changes.size(); ++i) {
            ops::real(it.changes[i], own);
        }
        bridge::expect_value(own[0], it.after[0], "a changed copy");
        break;
    }
    case What::Join: {
        const json::value &x = ops::cat(w.docs[static_cast<size_t>(it.s.a)], it.s.pa), &y = ops::cat(w.docs[static_cast<size_t>(it.s.b)], it.s.pb);
        json::value r;
        if (x.is_array() && y.is_array()) {
            r = x.as_array() + y.as_array();
        }
        else if (x.is_object() && y.is_object()) {
            r = x.as_object() | y.as_object();
        }
        else {
            r = json::array { x, y };
        }
        bridge::expect_value(r, it.node, "a joined document");
        break;
    }
    case What::N:
        break;
    }
}

void body(int t, void* arg)
{
    World& w = *static_cast<World*>(arg);
    try {
        for (Item& it : w.threads[static_cast<size_t>(t)].items) {
            it.completed = threads::with_failure(it.fail_at, it.lasting, [&] { perform(w, it); });
        }
    }
    catch (const Violation& v) {
        threads::keep(v);
    }
    catch (const std::exception& e) {
        violate_later("unexpected-exception", std::string("an exception escaped to a thread's program: ") + e.what());
    }
}

RV join(const RV& x, const RV& y)
{
    if (x.k == K::Arr && y.k == K::Arr) {
        RV r = x;
        r.a.insert(r.a.end(), y.a.begin(), y.a.end());
        return r;
    }
    if (x.k == K::Obj && y.k == K::Obj) {
        RV r = x;
        for (auto& [k, v] : y.o) {
            r.o[k] = v;
        }
        return r;
    }
    RV r = RV::arr();
    r.a = { x, y };
    return r;
}

void run()
{
    ref::unusual_sizes = chance(1, 20);
    const bool deep = chance(1, 25);
    World w;
    const size_t n_docs = 1 + draw(2), n_threads = 2 + draw(3);
    struct Place
    {
        int doc;
        ops::Elem at;
        size_t type;
    };
    std::vector<Place> places;
    for (size_t i = 0; i < n_docs; ++i) {
        ref::Gen g;
        g.max_nodes = 10;
        RV m = draw(2) ? RV::obj() : RV::arr();
        auto add = [&](RV v, size_t type) {
            Place p { static_cast<int>(i), {}, type };
            if (m.k == K::Obj) {
                p.at = { true, "m" + std::to_string(m.o.size()), 0 };
                m.o[p.at.key] = std::move(v);
            }
            else {
                p.at = { false, "", m.a.size() };
                m.a.push_back(std::move(v));
            }
            places.push_back(std::move(p));
        };
        for (size_t k = draw(3); k--;) {
            RV part = ref::gen(g, false);
            if (deep) { // (every thread goes down and up a long way)
                part = ref::deepen(std::move(part), range(15, 500));
            }
            add(std::move(part), draw(universe::types));
        }
        for (size_t k = draw(4); k--;) {
            const size_t type = draw(universe::types);
            RV v;
            threads::Job j;
            j.what = threads::Do::Message;
            j.out = &v;
            threads::job = &j;
            universe::dispatch_any(type);
            threads::job = nullptr;
            for (uint64_t c = draw(4); c > 2; --c) {
                skew::once(v);
            }
            add(std::move(v), type);
        }
        note("document %zu = %s", i, ref::show(m, 600).c_str());
        w.model.push_back(m);
        switch (draw(3)) {
        case 0:
            w.docs.push_back(bridge::plain(m));
            break;
        case 1:
            w.docs.push_back(bridge::build(m));
            break;
        default: {
            auto r = json::parse(ref::write(m, ref::Dialect::Strict));
            if (!r) {
                violate("parse", "a well-formed text was refused");
            }
            w.docs.push_back(std::move(*r));
        }
        }
    }
    size_t items = 0;
    w.threads.resize(n_threads);
    for (size_t t = 0; t < n_threads; ++t) {
        for (size_t k = 1 + draw(tier() ? 8 : 5); k--;) {
            // (threads often do the same things: what one does first, the other finds half done)
            if (t && !w.threads[t - 1].items.empty() && chance(1, 3)) {
                Item it = w.threads[t - 1].items[draw(w.threads[t - 1].items.size())];
                w.threads[t].items.push_back(std::move(it));
                continue;
            }
            Item it;
            it.what = static_cast<What>(draw(static_cast<uint64_t>(What::N)));
            it.form = draw(1000);
            it.doc = static_cast<int>(draw(n_docs));
            const RV& root = w.model[static_cast<size_t>(it.doc)];
            switch (it.what) {
            case What::Query: {
                do {
                    it.s = ops::gen(w.model, 1); // queries only
                } while (static_cast<int>(it.s.op) < ops::first_query);
                std::vector<RV> m = w.model;
                it.want = ops::model(it.s, m);
                break;
            }
            case What::Typed:
                if (places.empty()) {
                    it.path = ops::gen_path(root);
                    it.type = draw(universe::types);
                }
                else {
                    const Place& p = places[draw(places.size())];
                    it.doc = p.doc;
                    it.path = { p.at };
                    it.type = p.type;
                }
                it.node = ops::at(w.model[static_cast<size_t>(it.doc)], it.path);
                break;
            case What::Copy: {
                it.path = ops::gen_path(root);
                std::vector<RV> m { ops::at(w.model[static_cast<size_t>(it.doc)], it.path) };
                for (size_t c = draw(3); c--;) {
                    it.changes.push_back(ops::gen(m));
                    ops::model(it.changes.back(), m);
                }
                it.after = m;
                break;
            }
            case What::Join:
                it.s.a = it.doc;
                it.s.b = static_cast<int>(draw(n_docs));
                it.s.pa = ops::gen_path(root);
                it.s.pb = ops::gen_path(w.model[static_cast<size_t>(it.s.b)]);
                it.node = join(ops::at(w.model[static_cast<size_t>(it.s.a)], it.s.pa), ops::at(w.model[static_cast<size_t>(it.s.b)], it.s.pb));
                break;
            default:
                it.path = ops::gen_path(root);
            }
            if (chance(1, 6)) {
                it.fail_at = 1 + draw(12);
                it.lasting = draw(2);
            }
            w.threads[t].items.push_back(std::move(it));
        }
        for (Item& it : w.threads[t].items) {
            static const char* const names[] = { "query", "typed read", "text", "stream", "copy", "join" };
            note("thread %zu: %s form %d doc %d%s type %zu fail %d/%d %s", t, names[static_cast<int>(it.what)], (int)it.form, it.doc,
                 ops::show(it.path).c_str(), it.type, (int)it.fail_at, (int)it.lasting, it.what == What::Query ? ops::show(it.s).c_str() : "");
            probe(names[static_cast<int>(it.what)]);
            ++items;
        }
    }
    sched::run(static_cast<int>(n_threads), body, &w, 400000000);
    checkpoint();
    for (Thread& t : w.threads) {
        for (Item& it : t.items) {
            if (it.refused && !it.fail_at) {
                violate("text", "writing to a healthy stream failed");
            }
            if (it.completed && !it.refused && (it.what == What::Text || it.what == What::Stream)) {
                const json::value& x = ops::cat(w.docs[static_cast<size_t>(it.doc)], it.path);
                const std::string solo = it.what == What::Text ? text_of(x, it.form) : stream_of(x, it.form).value_or("(nothing)");
                if (it.text != solo) {
                    violate("text", "a thread wrote " + show(it.text, 300) + " for what is " + show(solo, 300) + " when written alone");
                }
            }
        }
    }
    uint64_t h = 9;
    for (size_t i = 0; i < n_docs; ++i) {
        bridge::expect_value(w.docs[i], w.model[i], "shared document after all");
        h = mix(h, ref::hash(w.model[i]));
    }
    state(h);
    nontrivial();
    sample(std::to_string(n_threads) + " threads, " + std::to_string(items) + " read operations on " + ref::show(w.model[0], 200));
}
} // namespace

const sim::World sim::world { "C09",
                              "each run draws 1-2 documents, 2-4 threads with 1-5 read-only operations each (queries, typed reads, serialisation to strings "
                              "and to own streams, copies that are then changed, joins), some with a failing allocation in one thread, and a schedule that "
                              "may switch threads at every basic block, load and store; results are compared with the model and with the same operation "
                              "done alone, races are reported by the race detector; non-trivial: every run (two threads or more)",
                              run, true, 1 };
