// C08: histories of copies, moves, assignments of parts and destructions over several documents.
#include "p08.hpp"
#include "ops.hpp"
#include "universe.hpp"

#include <algorithm>

namespace
{
using namespace sim;
using ops::Path;
using ref::K;
using ref::RV;

struct Pool
{
    std::vector<json::value> d;
    std::vector<RV> m;
    std::vector<json::array> a;
    std::vector<RV> ma;
    std::vector<json::object> o;
    std::vector<RV> mo;
};
Pool* g;
size_t which(size_t n)
{
    return draw(n);
}
// Runs one library call, now and then with an allocation of it failing. Returns whether it completed.
template <typename Fn>
bool maybe_failing(Fn&& f)
{
    const uint64_t k = draw(6) ? 0 : 1 + draw(12);
    if (!k) {
        f();
        return true;
    }
    mem::arm(k, false);
    bool done = true;
    try {
        f();
    }
    catch (const std::bad_alloc&) {
        done = false;
    }
    const bool failed = mem::plan.failed;
    mem::disarm();
    if (failed) {
        fault("allocation failure during a copy or move");
    }
    if (!done && !failed) {
        violate("outcome", "bad_alloc without a failed allocation");
    }
    return done;
}
void check(const std::string& after)
{
    for (size_t i = 0; i < g->d.size(); ++i) {
        bridge::expect_value(g->d[i], g->m[i], "document " + std::to_string(i) + " after " + after);
    }
    for (size_t i = 0; i < g->a.size(); ++i) {
        if (bridge::read(g->a[i]) != g->ma[i]) {
            violate("content", "array " + std::to_string(i) + " after " + after + " is " + ref::show(bridge::read(g->a[i])) + " instead of " + ref::show(g->ma[i]));
        }
    }
    for (size_t i = 0; i < g->o.size(); ++i) {
        if (bridge::read(g->o[i]) != g->mo[i]) {
            violate("content", "object " + std::to_string(i) + " after " + after + " is " + ref::show(bridge::read(g->o[i])) + " instead of " + ref::show(g->mo[i]));
        }
    }
}
json::value& node(size_t i, const Path& p)
{
    return ops::at(g->d[i], p, 0);
}
RV& mnode(size_t i, const Path& p)
{
    return ops::at(g->m[i], p);
}

std::string one()
{
    const size_t n = g->d.size();
    const size_t i = which(n), j = which(n);
    switch (draw(17)) {
    case 0: { // copy construction and copy assignment, in every form
        std::string t = "copy d" + std::to_string(i) + " to d" + std::to_string(j);
        const RV want = g->m[i];
        const uint64_t form = draw(6);
        if (maybe_failing([&] {
                switch (form) {
                case 0:
                    g->d[j] = g->d[i];
                    break;
                case 1: {
                    json::value c(g->d[i]);
                    g->d[j] = std::move(c);
                    break;
                }
                case 2: {
                    json::value c(std::as_const(g->d[i]));
                    std::swap(c, g->d[j]);
                    break;
                }
                case 3:
                    g->d[j] = g->d[i].as<json::value>();
                    break;
                case 4: {
                    std::vector<json::value> many(3, g->d[i]);
                    g->d[j] = many[1];
                    break;
                }
                default: {
                    auto c = std::make_unique<json::value>(g->d[i]);
                    g->d[j] = *c;
                }
                }
            })) {
            g->m[j] = want;
        }
        return t;
    }
    case 1: { // move between documents
        const RV want = g->m[i];
        const uint64_t form = draw(4);
        if (i == j) {
            json::value& self = g->d[i];
            g->d[j] = std::move(self);
            g->m[i] = bridge::read(g->d[i]); // the standard leaves the value of a self-move open
            return "self-move";
        }
        switch (form) {
        case 0:
            g->d[j] = std::move(g->d[i]);
            break;
        case 1: {
            json::value c(std::move(g->d[i]));
            g->d[j] = std::move(c);
            p08::probe_source(c);
            break;
        }
        case 2:
            g->d[j] = std::move(g->d[i]).as<json::value>();
            break;
        default:
            std::swap(g->d[j], g->d[i]);
            std::swap(g->m[i], g->m[j]);
            return "swap";
        }
        g->m[j] = want;
        p08::probe_source(g->d[i]);
        g->m[i] = bridge::read(g->d[i]);
        return "move d" + std::to_string(i) + " to d" + std::to_string(j);
    }
    case 2: { // a document becomes (a copy of) its own part
        Path p = ops::gen_path(g->m[i], 4);
        const RV want = mnode(i, p);
        const uint64_t form = draw(7);
        std::string t = "d" + std::to_string(i) + " = own part " + ops::show(p) + " form " + std::to_string(form);
        auto done = maybe_failing([&] {
            json::value& x = g->d[i];
            json::value& y = node(i, p);
            switch (form) {
            case 0:
                x = y;
                break;
            case 1:
                if (!p.empty()) {
                    x = std::move(y);
                }
                break;
            case 2:
                x = json::value(y);
                break;
            case 3:
                if (!p.empty()) {
                    x = std::move(y).as<json::value>();
                }
                break;
            case 4:
                if (y.is_array()) {
                    x = std::as_const(y).as_array();
                }
                else if (y.is_object()) {
                    x = std::as_const(y).as_object();
                }
                else {
                    x = y;
                }
                break;
            case 5:
                if (p.empty()) {
                    x = y;
                }
                else if (y.is_array()) {
                    x = std::move(y.as_array());
                }
                else if (y.is_object()) {
                    x = std::move(y.as_object());
                }
                else {
                    x = y;
                }
                break;
            default:
                if (y.is_string()) {
                    x = y.as_string_view();
                }
                else {
                    x = y;
                }
            }
        });
        if (done) {
            g->m[i] = want;
        }
        else {
            const RV now = bridge::read(g->d[i]);
            if (form != 3 && form != 5 && !(now == g->m[i])) {
                violate("content", t + " failed and left " + ref::show(now));
            }
            g->m[i] = now;
        }
        probe("assigned from an own part");
        return t;
    }
    case 3: { // an inner node becomes a copy of another node of the same document: ancestor, descendant, sibling
        Path p = ops::gen_path(g->m[i], 4), q = ops::gen_path(g->m[i], 4);
        const RV want = mnode(i, q);
        const bool done = maybe_failing([&] {
            json::value& x = node(i, p);
            const json::value& y = ops::cat(g->d[i], q);
            x = y;
        });
        if (done) {
            mnode(i, p) = want;
        }
        return "node " + ops::show(p) + " = node " + ops::show(q);
    }
    case 4: { // containers taken out
        Path p = ops::gen_path(g->m[i], 4);
        const json::value& y = ops::cat(g->d[i], p);
        const RV& my = mnode(i, p);
        const size_t k = which(2);
        const uint64_t form = draw(4);
        const RV want = my;
        if (my.k == K::Arr) {
            if (maybe_failing([&] {
                    switch (form) {
                    case 0:
                        g->a[k] = y.as_array();
                        break;
                    case 1: {
                        json::array c(y.as_array());
                        g->a[k] = std::move(c);
                        break;
                    }
                    case 2:
                        g->a[k] = static_cast<json::array>(y);
                        break;
                    default:
                        g->a[k] = y.as<json::array>();
                    }
                })) {
                g->ma[k] = want;
            }
        }
        else if (my.k == K::Obj) {
            if (maybe_failing([&] {
                    switch (form) {
                    case 0:
                        g->o[k] = y.as_object();
                        break;
                    case 1: {
                        json::object c(y.as_object());
                        g->o[k] = std::move(c);
                        break;
                    }
                    case 2:
                        g->o[k] = static_cast<json::object>(y);
                        break;
                    default:
                        g->o[k] = y.as<json::object>();
                    }
                })) {
                g->mo[k] = want;
            }
        }
        return "container copied out of " + ops::show(p);
    }
    case 5: { // containers moved out and in
        Path p = ops::gen_path(g->m[i], 4);
        json::value& y = node(i, p);
        const size_t k = which(2);
        RV& my = mnode(i, p);
        if (my.k == K::Arr) {
            json::array& inner = y.as_array();
            g->a[k] = std::move(inner);
            g->ma[k] = my;
            p08::probe_container(inner);
            my = bridge::read(y);
        }
        else if (my.k == K::Obj) {
            json::object& inner = y.as_object();
            g->o[k] = std::move(inner);
            g->mo[k] = my;
            p08::probe_container(inner);
            my = bridge::read(y);
        }
        return "container moved out of " + ops::show(p);
    }
    case 6: {
        const size_t k = which(2);
        const bool arr = draw(2), move = draw(2);
        const RV want = arr ? g->ma[k] : g->mo[k];
        if (move) {
            if (arr) {
                g->d[j] = std::move(g->a[k]);
                p08::probe_container(g->a[k]);
                g->ma[k] = bridge::read(g->a[k]);
            }
            else {
                g->d[j] = std::move(g->o[k]);
                p08::probe_container(g->o[k]);
                g->mo[k] = bridge::read(g->o[k]);
            }
            g->m[j] = want;
        }
        else if (maybe_failing([&] {
                     if (arr) {
                         g->d[j] = g->a[k];
                     }
                     else {
                         g->d[j] = g->o[k];
                     }
                 })) {
            g->m[j] = want;
        }
        return "container put into d" + std::to_string(j);
    }
    case 7: { // arrays and objects among themselves, and from their own parts
        const size_t k = which(2), l = which(2);
        switch (draw(6)) {
        case 0: {
            const RV want = g->ma[k];
            if (maybe_failing([&] { g->a[l] = g->a[k]; })) {
                g->ma[l] = want;
            }
            break;
        }
        case 1: {
            const RV want = g->mo[k];
            if (maybe_failing([&] { g->o[l] = g->o[k]; })) {
                g->mo[l] = want;
            }
            break;
        }
        case 2:
        case 3:
            for (size_t e = 0; e < g->ma[k].a.size(); ++e) {
                if (g->ma[k].a[e].k == K::Arr) {
                    const RV want = g->ma[k].a[e];
                    if (draw(2)) {
                        g->a[k] = std::move(g->a[k][e].as_array());
                        g->ma[k] = want;
                    }
                    else if (maybe_failing([&] { g->a[k] = std::as_const(g->a[k])[e].as_array(); })) {
                        g->ma[k] = want;
                    }
                    probe("array assigned from an own part");
                    break;
                }
            }
            break;
        case 4:
            for (auto& [key, e] : g->mo[k].o) {
                if (e.k == K::Obj) {
                    const RV want = e;
                    const std::string kk = key;
                    if (draw(2)) {
                        g->o[k] = std::move(g->o[k][kk].as_object());
                        g->mo[k] = want;
                    }
                    else if (maybe_failing([&] { g->o[k] = std::as_const(g->o[k]).at(kk).as_object(); })) {
                        g->mo[k] = want;
                    }
                    probe("object assigned from an own part");
                    break;
                }
            }
            break;
        default: {
            std::swap(g->a[0], g->a[1]);
            std::swap(g->ma[0], g->ma[1]);
            std::swap(g->o[0], g->o[1]);
            std::swap(g->mo[0], g->mo[1]);
        }
        }
        return "containers among themselves";
    }
    case 8: { // own elements as arguments
        const size_t k = which(2);
        if (g->ma[k].a.empty()) {
            return "nothing";
        }
        const size_t e = which(g->ma[k].a.size());
        const RV want = g->ma[k].a[e];
        switch (draw(4)) {
        case 0:
            if (maybe_failing([&] { g->a[k].push_back(g->a[k][e]); })) {
                g->ma[k].a.push_back(want);
            }
            break;
        case 1:
            if (maybe_failing([&] { g->a[k].emplace_back(std::as_const(g->a[k])[e]); })) {
                g->ma[k].a.push_back(want);
            }
            break;
        case 2: {
            g->a[k].push_back(std::move(g->a[k][e]));
            g->ma[k].a.push_back(want);
            if (!(bridge::read(g->a[k][g->ma[k].a.size() - 1]) == want)) {
                violate("content", "an own element moved to the end arrived as something else");
            }
            p08::probe_source(g->a[k][e]);
            g->ma[k].a[e] = bridge::read(g->a[k][e]);
            break;
        }
        default: {
            const size_t f = which(g->ma[k].a.size());
            std::swap(g->a[k][e], g->a[k][f]);
            std::swap(g->ma[k].a[e], g->ma[k].a[f]);
        }
        }
        probe("own element as argument");
        return "own element of array " + std::to_string(k);
    }
    case 9: {
        const size_t k = which(2);
        if (g->mo[k].o.empty()) {
            return "nothing";
        }
        auto it = g->mo[k].o.begin();
        std::advance(it, static_cast<std::ptrdiff_t>(which(g->mo[k].o.size())));
        const std::string key = it->first;
        const RV want = it->second;
        const std::string to = ops::gen_key_near(g->mo[k]);
        switch (draw(5)) {
        case 0:
            if (maybe_failing([&] { g->o[k].emplace(to, std::as_const(g->o[k]).at(key)); })) {
                g->mo[k].o[to] = want;
            }
            break;
        case 1: {
            json::value& src = g->o[k][key];
            g->o[k].emplace(to, std::move(src));
            g->mo[k].o[to] = want;
            if (to != key) {
                p08::probe_source(g->o[k][key]);
                g->mo[k].o[key] = bridge::read(g->o[k][key]);
            }
            else { // moved onto itself
                g->mo[k].o[key] = bridge::read(g->o[k][key]);
            }
            break;
        }
        case 2: { // a key that lives in the object itself
            auto ri = g->o[k].begin();
            while (ri->first != key) {
                ++ri;
            }
            g->o[k].erase(ri->first);
            g->mo[k].o.erase(key);
            break;
        }
        case 3: { // a value built from the object's own key
            auto ri = g->o[k].begin();
            while (ri->first != key) {
                ++ri;
            }
            g->o[k][to] = ri->first;
            g->mo[k].o[to] = RV::str(key);
            break;
        }
        default:
            if (maybe_failing([&] { g->o[k].insert(to, g->o[k][key]); })) {
                g->mo[k].o[to] = want;
            }
        }
        probe("own element as argument");
        return "own element of object " + std::to_string(k);
    }
    case 10: { // algorithms that move elements around
        const size_t k = which(2);
        auto& a = g->a[k];
        auto& m = g->ma[k].a;
        switch (draw(6)) {
        case 0:
            std::reverse(a.begin(), a.end());
            std::reverse(m.begin(), m.end());
            break;
        case 1:
            if (m.size()) {
                const auto mid = static_cast<std::ptrdiff_t>(which(m.size()));
                std::rotate(a.begin(), a.begin() + mid, a.end());
                std::rotate(m.begin(), m.begin() + mid, m.end());
            }
            break;
        case 2: {
            std::stable_sort(a.begin(), a.end(), [](const json::value& x, const json::value& y) { return x.to_string() < y.to_string(); });
            std::vector<std::pair<std::string, RV>> t;
            for (auto& x : m) {
                t.emplace_back(bridge::plain(x).to_string(), x);
            }
            std::stable_sort(t.begin(), t.end(), [](auto& x, auto& y) { return x.first < y.first; });
            for (size_t e = 0; e < m.size(); ++e) {
                m[e] = t[e].second;
            }
            break;
        }
        case 3: {
            auto e = std::remove_if(a.begin(), a.end(), [](const json::value& x) { return x.is_number(); });
            const size_t keep = static_cast<size_t>(e - a.begin());
            while (a.size() > keep) {
                a.erase(a.end() - 1);
            }
            m.erase(std::remove_if(m.begin(), m.end(), [](const RV& x) { return x.k == K::Num; }), m.end());
            break;
        }
        case 4: {
            std::vector<json::value> w;
            for (auto& x : a) {
                w.push_back(std::move(x));
            }
            for (size_t e = 0; e < w.size(); ++e) {
                bridge::expect_value(w[e], m[e], "element moved out of an array");
            }
            a = json::array(std::move(w));
            break;
        }
        default: {
            std::vector<json::value> w(a.begin(), a.end());
            w.insert(w.begin(), json::value("front"));
            w.erase(w.begin());
            a = w;
        }
        }
        return "algorithm on array " + std::to_string(k);
    }
    case 11: { // destruction of one leaves the others alone
        if (draw(2)) {
            json::value fresh = bridge::plain(ops::gen_val(4));
            const RV now = bridge::read(fresh);
            g->d[i].~value();
            new (&g->d[i]) json::value(std::move(fresh));
            g->m[i] = now;
        }
        else {
            g->d[i].clear();
            g->m[i] = RV();
        }
        return "destroyed d" + std::to_string(i);
    }
    default: { // an ordinary operation on the documents
        ops::Step s = ops::gen(g->m, 8);
        const std::string t = ops::show(s);
        ops::Out want = ops::model(s, g->m);
        ops::Out got = ops::real(s, g->d);
        if (!(got == want)) {
            violate(std::string("result/") + ops::name(s.op), t + " reported " + ops::show(got) + " instead of " + ops::show(want));
        }
        return t;
    }
    }
}

void run_history()
{
    Pool p;
    g = &p;
    const size_t n = 2 + draw(2);
    p.d.resize(n);
    for (size_t i = 0; i < n; ++i) {
        ref::Gen gen;
        gen.max_nodes = 12;
        p.m.push_back(ref::gen(gen, draw(4) != 0));
        p.d[i] = bridge::build(p.m[i]);
        note("d%zu = %s", i, ref::show(p.m[i]).c_str());
    }
    for (size_t i = 0; i < 2; ++i) {
        p.ma.push_back(ops::gen_kind(K::Arr));
        p.mo.push_back(ops::gen_kind(K::Obj));
        p.a.push_back(ops::to_array(p.ma[i]));
        p.o.push_back(ops::to_object(p.mo[i]));
        note("a%zu = %s, o%zu = %s", i, ref::show(p.ma[i]).c_str(), i, ref::show(p.mo[i]).c_str());
    }
    const size_t steps = 3 + draw(tier() ? 50 : 20);
    for (size_t k = 0; k < steps; ++k) {
        size_t total = 0;
        for (auto& x : p.m) {
            total += x.nodes();
        }
        for (auto& x : p.ma) {
            total += x.nodes();
        }
        for (auto& x : p.mo) {
            total += x.nodes();
        }
        if (total > 400) { // keep documents small
            p.d[0] = json::value();
            p.m[0] = RV();
            p.a[0] = json::array();
            p.ma[0] = RV::arr();
            p.o[0] = json::object();
            p.mo[0] = RV::obj();
        }
        const std::string t = one();
        note("%zu: %s", k, t.c_str());
        step();
        check(t);
        state(mix(ref::hash(p.m[0]), mix(ref::hash(p.m[1]), ref::hash(p.ma[0]))));
    }
    nontrivial();
    // destroyed in a drawn order, the rest checked each time
    while (p.d.size() > 1) {
        const size_t i = which(p.d.size());
        p.d.erase(p.d.begin() + static_cast<std::ptrdiff_t>(i));
        p.m.erase(p.m.begin() + static_cast<std::ptrdiff_t>(i));
        check("destruction of a document");
    }
    sample("history of " + std::to_string(steps) + " copies, moves and changes; document ends as " + ref::show(p.m[0], 150));
}
void run()
{
    if (draw(3)) {
        return run_history();
    }
    const size_t i = draw(universe::All::size);
    note("type %zu", i);
    universe::dispatch(i);
}
} // namespace

const sim::World sim::world { "C08",
                              "each run draws either a history of copies, moves (sources are used afterwards), assignments of own parts, algorithms and "
                              "destructions over 2-3 documents and 4 containers, some with a failing allocation, all contents compared with a value model "
                              "after every step; or conversions of one supported type in both directions whose sources (and pointees shared with other "
                              "owners) are compared afterwards; non-trivial: a whole history, or at least one conversion",
                              run, true, 256 };
