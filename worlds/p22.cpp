// C22: references into a document.
#include "bridge.hpp"

#include <functional>
#include <memory>
#include <sstream>

namespace
{
using namespace sim;
using ref::K;
using ref::RV;

// The model of one value object. It exists as long as the object does: what refers to it holds it weakly. Its content can move
// elsewhere, and then takes the members along.
struct N;
using P = std::shared_ptr<N>;
struct Content
{
    K k = K::Null;
    std::string s;
    std::vector<P> a;
    std::map<std::string, P> o;
    std::shared_ptr<int> body = std::make_shared<int>(0); // this string, array or object, until it is replaced
};
struct N
{
    Content c;
};
Content content(const RV& v);
P node(const RV& v)
{
    P n = std::make_shared<N>();
    n->c = content(v);
    return n;
}
Content content(const RV& v)
{
    Content c;
    c.k = v.k;
    c.s = v.s;
    for (auto& x : v.a) {
        c.a.push_back(node(x));
    }
    for (auto& [k, x] : v.o) {
        c.o.emplace(k, node(x));
    }
    return c;
}
RV rv(const N& n)
{
    RV v;
    v.k = n.c.k;
    v.s = n.c.s;
    for (auto& x : n.c.a) {
        v.a.push_back(rv(*x));
    }
    for (auto& [k, x] : n.c.o) {
        v.o.emplace(k, rv(*x));
    }
    return v;
}
size_t nodes(const N& n)
{
    size_t k = 1;
    for (auto& x : n.c.a) {
        k += nodes(*x);
    }
    for (auto& [key, x] : n.c.o) {
        k += nodes(*x);
    }
    return k;
}

enum class H
{
    Value,    // json::value&
    Object,   // json::object&, from as_object()
    Array,    // json::array&, from as_array()
    Iterator, // into an object
    Text,     // std::string_view, from as_string_view()
    Count
};
const char* const kinds[] = { "a reference to a value", "a reference to an object", "a reference to an array", "an iterator of an object", "a view of a string" };
struct Handle
{
    H h;
    std::weak_ptr<N> n;
    std::weak_ptr<int> body;
    json::value* p = nullptr;
    json::object* o = nullptr;
    json::array* a = nullptr;
    json::object::iterator it {};
    std::string key;
    std::string_view text;
    size_t age = 0;
    P alive() const
    {
        P x = n.lock();
        if (x && h != H::Value && h != H::Iterator && x->c.body != body.lock()) {
            return nullptr;
        }
        return x;
    }
};
struct Place
{
    P n;
    json::value* p;
    P parent;
    std::string key;
    size_t root;
};
struct Run
{
    std::vector<json::value> docs;
    std::vector<P> model;
    std::vector<std::pair<json::value, RV>> copies;
    std::vector<Handle> handles;
    std::vector<Place> places;
};

void traverse(Run& w, const json::value& v, const P& n, const P& parent, const std::string& key, size_t root)
{
    w.places.push_back({ n, const_cast<json::value*>(&v), parent, key, root });
    switch (n->c.k) {
    case K::Arr: {
        if (!v.is_array() || v.as_array().size() != n->c.a.size()) {
            violate("content", "another content: " + show(v.to_string(), 200) + " instead of " + ref::show(rv(*n), 200));
        }
        for (size_t i = 0; i < n->c.a.size(); ++i) {
            traverse(w, v.as_array().at(i), n->c.a[i], n, std::to_string(i), root);
        }
        break;
    }
    case K::Obj: {
        if (!v.is_object() || v.as_object().size() != n->c.o.size()) {
            violate("content", "another content: " + show(v.to_string(), 200) + " instead of " + ref::show(rv(*n), 200));
        }
        for (auto& [k, x] : n->c.o) {
            const json::value* m = v.as_object().find_value(k);
            if (!m) {
                violate("content", "no member " + show(k));
            }
            if (m != &v.at(k)) {
                violate("reference", "find_value() and at() give different objects for member " + show(k));
            }
            traverse(w, *m, x, n, k, root);
        }
        break;
    }
    default:
        bridge::expect_value(v, rv(*n), "a part of a document");
    }
}
void look(Run& w, const char* after)
{
    w.places.clear();
    for (size_t i = 0; i < w.docs.size(); ++i) {
        traverse(w, w.docs[i], w.model[i], nullptr, "", i);
    }
    for (auto& [c, m] : w.copies) {
        bridge::expect_value(c, m, "a copy made before");
    }
    std::map<const N*, json::value*> at;
    for (auto& x : w.places) {
        at[x.n.get()] = x.p;
    }
    std::vector<Handle> keep;
    for (auto& h : w.handles) {
        const P n = h.alive();
        if (!n) {
            continue;
        }
        const auto found = at.find(n.get());
        if (found == at.end()) {
            fatal("harness", "a node of the model is in no document");
        }
        json::value* p = found->second;
        bool same = false;
        switch (h.h) {
        case H::Value:
            same = h.p == p;
            break;
        case H::Object:
            same = h.o == &std::as_const(*p).as_object();
            break;
        case H::Array:
            same = h.a == &std::as_const(*p).as_array();
            break;
        case H::Iterator:
            same = &h.it->second == p && h.it->first == h.key;
            break;
        default: {
            const std::string_view t = std::as_const(*p).as_string_view();
            same = t.data() == h.text.data() && h.text == n->c.s;
        }
        }
        if (!same) {
            violate("reference", std::string(kinds[static_cast<int>(h.h)]) + " that was taken " + std::to_string(h.age) +
                                     " operations ago refers to something else than " + ref::show(rv(*n), 200) + ", after " + after);
        }
        ++h.age;
        keep.push_back(h);
    }
    w.handles = std::move(keep);
}
bool inside(const N& a, const N* b) // b is a or a part of it
{
    if (&a == b) {
        return true;
    }
    for (auto& x : a.c.a) {
        if (inside(*x, b)) {
            return true;
        }
    }
    for (auto& [k, x] : a.c.o) {
        if (inside(*x, b)) {
            return true;
        }
    }
    return false;
}
RV some(bool container = false)
{
    ref::Gen g;
    g.max_nodes = draw(4) ? 4 : 10;
    return ref::gen(g, container || draw(3) == 0);
}
RV some_object()
{
    RV v = RV::obj();
    for (uint64_t k = 1 + draw(4); k--;) {
        v.o.emplace(draw(2) ? ref::gen_key() : std::string(1, static_cast<char>('a' + draw(4))), some());
    }
    return v;
}
void fresh_elements(N& n, size_t from) // the elements are new objects
{
    for (size_t i = from; i < n.c.a.size(); ++i) {
        n.c.a[i] = node(rv(*n.c.a[i]));
    }
}

// Runs f with the k-th allocation failing; true if it was done.
bool done(uint64_t fail_at, const std::function<void()>& f)
{
    if (!fail_at) {
        f();
        return true;
    }
    bool ok = true;
    mem::arm(fail_at, false);
    try {
        f();
    }
    catch (const std::bad_alloc&) {
        ok = false;
    }
    const uint64_t failed = mem::plan.failed;
    mem::disarm();
    fault("failed allocation", failed != 0);
    return ok;
}

void take(Run& w)
{
    const Place& x = w.places[draw(w.places.size())];
    Handle h { static_cast<H>(draw(static_cast<uint64_t>(H::Count))), x.n, x.n->c.body };
    switch (h.h) {
    case H::Object:
        if (x.n->c.k == K::Obj) {
            h.o = &x.p->as_object();
            break;
        }
        h.h = H::Value;
        h.p = x.p;
        break;
    case H::Array:
        if (x.n->c.k == K::Arr) {
            h.a = &x.p->as_array();
            break;
        }
        h.h = H::Value;
        h.p = x.p;
        break;
    case H::Text:
        if (x.n->c.k == K::Str) {
            h.text = x.p->as_string_view();
            break;
        }
        h.h = H::Value;
        h.p = x.p;
        break;
    case H::Iterator:
        if (x.parent && x.parent->c.k == K::Obj) {
            for (auto& y : w.places) {
                if (y.n == x.parent) {
                    json::object& o = y.p->as_object();
                    h.it = o.begin();
                    while (h.it != o.end() && h.it->first != x.key) {
                        ++h.it;
                    }
                    if (h.it == o.end()) {
                        violate("reference", "iteration does not reach member " + show(x.key));
                    }
                    h.key = x.key;
                    break;
                }
            }
            break;
        }
        h.h = H::Value;
        h.p = x.p;
        break;
    default: { // by name, from the root
        std::vector<const Place*> path;
        for (const Place* y = &x; y->parent;) {
            path.push_back(y);
            for (auto& z : w.places) {
                if (z.n == y->parent) {
                    y = &z;
                    break;
                }
            }
        }
        json::value* p = &w.docs[x.root];
        while (!path.empty()) {
            const Place* y = path.back();
            path.pop_back();
            if (y->parent->c.k == K::Obj) {
                p = draw(2) ? &(*p)[y->key] : &p->as_object()[y->key];
            }
            else {
                const size_t i = std::stoul(y->key);
                p = draw(2) ? &(*p)[i] : &p->as_array()[i];
            }
        }
        h.p = p;
    }
    }
    probe(kinds[static_cast<int>(h.h)]);
    note("take %s to %s", kinds[static_cast<int>(h.h)], ref::show(rv(*x.n), 120).c_str());
    w.handles.push_back(std::move(h));
}

// Somewhere to operate: mostly where a reference leads.
size_t somewhere(Run& w, K want, bool any)
{
    std::vector<size_t> c;
    for (size_t i = 0; i < w.places.size(); ++i) {
        if (any || w.places[i].n->c.k == want) {
            c.push_back(i);
        }
    }
    if (c.empty()) {
        return SIZE_MAX;
    }
    if (!w.handles.empty() && draw(2)) {
        const Handle& h = w.handles[draw(w.handles.size())];
        const P n = h.n.lock();
        for (size_t i : c) {
            if (w.places[i].n == n) {
                return i;
            }
        }
    }
    return c[draw(c.size())];
}
// The object that is operated on, through a reference if there is one.
json::object& object_at(Run& w, const Place& x)
{
    for (auto& h : w.handles) {
        if (h.h == H::Object && h.alive() == x.n) {
            return *h.o;
        }
    }
    return x.p->as_object();
}
json::array& array_at(Run& w, const Place& x)
{
    for (auto& h : w.handles) {
        if (h.h == H::Array && h.alive() == x.n) {
            return *h.a;
        }
    }
    return x.p->as_array();
}

const char* operate(Run& w)
{
    const uint64_t fail_at = chance(1, 4) ? 1 + draw(6) : 0;
    switch (draw(22)) {
    case 0: { // a new content
        const Place x = w.places[somewhere(w, K::Null, true)];
        const RV v = some();
        json::value from = bridge::plain(v);
        const bool moved = draw(2);
        note("assign %s", ref::show(v, 120).c_str());
        if (done(moved ? 0 : fail_at, [&] {
                if (moved) {
                    *x.p = std::move(from);
                }
                else {
                    *x.p = from;
                }
            })) {
            x.n->c = content(v);
        }
        return "an assignment";
    }
    case 1:
    case 2: { // a member, new or not
        const size_t i = somewhere(w, K::Obj, false);
        if (i == SIZE_MAX) {
            return nullptr;
        }
        const Place x = w.places[i];
        const bool old = !x.n->c.o.empty() && draw(2);
        const std::string key = old ? std::next(x.n->c.o.begin(), static_cast<long>(draw(x.n->c.o.size())))->first : ref::gen_key();
        const RV v = some();
        json::value from = bridge::plain(v);
        const uint64_t how = draw(6);
        note("member %s = %s (%d)", show(key).c_str(), ref::show(v, 120).c_str(), (int)how);
        json::object& o = object_at(w, x);
        if (done(fail_at, [&] {
                switch (how) {
                case 0:
                    o[key] = std::move(from);
                    break;
                case 1:
                    (*x.p)[key] = std::move(from);
                    break;
                case 2:
                    o.emplace(key, std::move(from));
                    break;
                case 3:
                    x.p->emplace(key, std::move(from));
                    break;
                case 4:
                    o.insert(std::pair<std::string, json::value>(key, std::move(from)).first, bridge::plain(v));
                    break;
                default:
                    o[std::string(key)] = std::move(from);
                }
            })) {
            auto [it, is_new] = x.n->c.o.try_emplace(key, nullptr);
            if (is_new) {
                it->second = node(v);
            }
            else {
                it->second->c = content(v);
            }
        }
        return "a member was set";
    }
    case 3: { // a member less
        const size_t i = somewhere(w, K::Obj, false);
        if (i == SIZE_MAX || w.places[i].n->c.o.empty()) {
            return nullptr;
        }
        const Place x = w.places[i];
        const auto it = std::next(x.n->c.o.begin(), static_cast<long>(draw(x.n->c.o.size())));
        json::object& o = object_at(w, x);
        const uint64_t how = draw(3);
        note("erase member %s (%d)", show(it->first).c_str(), (int)how);
        if (how == 0) {
            o.erase(it->first);
        }
        else if (how == 1) {
            x.p->erase(it->first);
        }
        else {
            json::object::iterator r = o.begin();
            for (auto& h : w.handles) {
                if (h.h == H::Iterator && h.n.lock() == it->second) {
                    r = h.it;
                }
            }
            while (r->first != it->first) {
                ++r;
            }
            o.erase(r);
        }
        x.n->c.o.erase(it);
        return "a member was erased";
    }
    case 4: { // merged with another object
        const size_t i = somewhere(w, K::Obj, false);
        if (i == SIZE_MAX) {
            return nullptr;
        }
        const Place x = w.places[i];
        const RV v = some_object();
        json::object from = bridge::plain(v).as_object();
        json::object& o = object_at(w, x);
        const bool moved = draw(2), by_value = draw(2);
        note("merge with %s", ref::show(v, 120).c_str());
        if (moved) {
            by_value ? void(*x.p |= std::move(from)) : void(o |= std::move(from));
        }
        else {
            by_value ? void(*x.p |= from) : void(o |= from);
        }
        for (auto& [k, y] : v.o) {
            auto [it, is_new] = x.n->c.o.try_emplace(k, nullptr);
            if (is_new) {
                it->second = node(y);
            }
            else {
                it->second->c = content(y);
            }
        }
        return "a merge";
    }
    case 5: { // an element more
        const size_t i = somewhere(w, K::Arr, false);
        if (i == SIZE_MAX) {
            return nullptr;
        }
        const Place x = w.places[i];
        const RV v = some();
        json::value from = bridge::plain(v);
        json::array& a = array_at(w, x);
        const uint64_t how = draw(4);
        note("append %s (%d)", ref::show(v, 120).c_str(), (int)how);
        if (done(fail_at, [&] {
                switch (how) {
                case 0:
                    a.push_back(from);
                    break;
                case 1:
                    a.emplace_back(std::move(from));
                    break;
                case 2:
                    x.p->emplace(std::move(from));
                    break;
                default:
                    *x.p += json::array { from };
                }
            })) {
            x.n->c.a.push_back(node(v));
        }
        fresh_elements(*x.n, 0);
        return "an element was appended";
    }
    case 6: { // an element less: those before it stay
        const size_t i = somewhere(w, K::Arr, false);
        if (i == SIZE_MAX || w.places[i].n->c.a.empty()) {
            return nullptr;
        }
        const Place x = w.places[i];
        const size_t pos = draw(x.n->c.a.size());
        json::array& a = array_at(w, x);
        note("erase element %zu", pos);
        switch (draw(3)) {
        case 0:
            a.erase(pos);
            break;
        case 1:
            x.p->erase(pos);
            break;
        default:
            a.erase(a.begin() + static_cast<long>(pos));
        }
        x.n->c.a.erase(x.n->c.a.begin() + static_cast<long>(pos));
        fresh_elements(*x.n, pos);
        return "an element was erased";
    }
    case 7: { // no members
        const Place x = w.places[somewhere(w, K::Null, true)];
        if (x.n->c.k == K::Obj) {
            object_at(w, x).clear();
            x.n->c.o.clear();
        }
        else if (x.n->c.k == K::Arr) {
            array_at(w, x).clear();
            x.n->c.a.clear();
        }
        else {
            x.p->clear();
            x.n->c = content(RV::null());
        }
        note("clear");
        return "clear()";
    }
    case 8:
    case 9:
    case 10: { // the content goes elsewhere
        const Place x = w.places[somewhere(w, K::Null, true)];
        const Place y = w.places[somewhere(w, K::Null, true)];
        if (inside(*x.n, y.n.get()) || inside(*y.n, x.n.get())) {
            return nullptr;
        }
        const RV v = some();
        const uint64_t how = draw(4);
        note("move %s to %s (%d)", ref::show(rv(*x.n), 120).c_str(), ref::show(rv(*y.n), 120).c_str(), (int)how);
        if (how == 0) {
            std::swap(*x.p, *y.p);
            std::swap(x.n->c, y.n->c);
            return "a swap";
        }
        if (how == 1) {
            json::value between(std::move(*x.p));
            *x.p = bridge::plain(v);
            *y.p = std::move(between);
        }
        else if (how == 2 && x.n->c.k == K::Obj) {
            json::object between(std::move(x.p->as_object()));
            *x.p = bridge::plain(v);
            *y.p = json::value(std::move(between));
            x.n->c.body = std::make_shared<int>(0);
        }
        else if (how == 2 && x.n->c.k == K::Arr) {
            json::array between;
            between = std::move(x.p->as_array());
            *x.p = bridge::plain(v);
            *y.p = std::move(between);
            x.n->c.body = std::make_shared<int>(0);
        }
        else {
            *y.p = std::move(*x.p);
            *x.p = bridge::plain(v);
        }
        y.n->c = std::move(x.n->c);
        if (y.n->c.k == K::Str) {
            y.n->c.body = std::make_shared<int>(0);
        }
        x.n->c = content(v);
        return "a move";
    }
    case 11: { // out and back
        const Place x = w.places[somewhere(w, K::Null, true)];
        note("out and back");
        json::value out = std::move(*x.p);
        *x.p = std::move(out);
        x.n->c.body = std::make_shared<int>(0);
        return "a move out and back";
    }
    case 12: { // all documents move
        note("all documents move");
        std::vector<json::value> more;
        more.reserve(w.docs.size());
        for (auto& d : w.docs) {
            more.push_back(std::move(d));
        }
        w.docs = std::move(more);
        for (auto& m : w.model) {
            P n = std::make_shared<N>();
            n->c = std::move(m->c);
            n->c.body = std::make_shared<int>(0);
            m = n;
        }
        return "a move of all documents";
    }
    case 13:
    case 14: { // a copy that is kept
        const Place x = w.places[somewhere(w, K::Null, true)];
        if (w.copies.size() > 4) {
            w.copies.clear();
        }
        note("copy %s", ref::show(rv(*x.n), 120).c_str());
        if (done(fail_at, [&] { w.copies.emplace_back(*x.p, RV()); })) {
            w.copies.back().second = rv(*x.n);
        }
        return "a copy";
    }
    case 15: { // a member of another document, moved in by a merge
        const size_t i = somewhere(w, K::Obj, false);
        const size_t j = somewhere(w, K::Obj, false);
        if (i == SIZE_MAX || inside(*w.places[i].n, w.places[j].n.get()) || inside(*w.places[j].n, w.places[i].n.get())) {
            return nullptr;
        }
        const Place x = w.places[i], y = w.places[j];
        note("merge, moving %s", ref::show(rv(*y.n), 120).c_str());
        object_at(w, x) |= std::move(y.p->as_object());
        Content c = std::move(y.n->c);
        y.n->c = content(RV::num("1"));
        *y.p = 1;
        for (auto& [k, m] : c.o) {
            auto [it, is_new] = x.n->c.o.try_emplace(k, nullptr);
            if (is_new) {
                it->second = std::make_shared<N>();
            }
            it->second->c = std::move(m->c); // (another object, the same members)
            it->second->c.body = std::make_shared<int>(0);
        }
        return "a merge that moves";
    }
    default: { // nothing changes
        const Place x = w.places[somewhere(w, K::Null, true)];
        const json::value& c = *x.p;
        const uint64_t how = draw(9);
        note("read (%d)", (int)how);
        done(fail_at, [&] {
            switch (how) {
            case 0:
                (void)c.to_string();
                break;
            case 1:
                (void)c.format();
                break;
            case 2:
                (void)(c == w.docs[0]);
                break;
            case 3:
                if (c.is_object()) {
                    (void)(c | json::object { { "a", 1 } });
                }
                else if (c.is_array()) {
                    (void)(c + json::array { 1 });
                }
                break;
            case 4:
                try {
                    if (c.is_object()) {
                        (void)c.as<std::map<std::string, json::value>>();
                    }
                    else {
                        (void)c.as<std::vector<json::value>>();
                    }
                }
                catch (const json::exception&) {
                }
                break;
            case 5:
                (void)c.get("a", 0, json::value());
                break;
            case 6:
                if (c.is_object()) {
                    for (auto& [k, m] : x.p->as_object()) {
                        (void)x.p->contains(k);
                        (void)(*x.p)[k];
                        (void)m;
                    }
                }
                else if (c.is_array()) {
                    for (auto& m : x.p->as_array()) {
                        (void)m.empty();
                    }
                }
                break;
            case 7:
                (void)c.find<json::value>("a");
                break;
            default: {
                std::ostringstream os;
                os << c;
                break;
            }
            }
        });
        return "a read";
    }
    }
}

void run()
{
    Run w;
    for (uint64_t k = 1 + draw(3); k--;) {
        ref::Gen g;
        g.max_nodes = 4 + draw(16);
        const RV v = ref::gen(g, true);
        w.docs.push_back(bridge::build(v));
        w.model.push_back(node(v));
        note("document %zu = %s", w.docs.size() - 1, ref::show(v, 300).c_str());
    }
    look(w, "construction");
    size_t operations = 0, longest = 0;
    uint64_t h = 22;
    for (uint64_t k = 4 + draw(tier() ? 60 : 30); k--;) {
        if (w.handles.size() < 12 && (w.handles.empty() || draw(3) == 0)) {
            take(w);
            look(w, "a reference was taken");
        }
        size_t total = 0;
        for (auto& m : w.model) {
            total += nodes(*m);
        }
        if (total > 120) {
            const size_t i = draw(w.docs.size());
            w.docs[i] = json::value();
            w.model[i]->c = content(RV::null());
            look(w, "an assignment");
        }
        if (const char* what = operate(w)) {
            ++operations;
            step();
            probe(what);
            look(w, what);
            h = mix(h, ref::hash(rv(*w.model[0])));
        }
        for (auto& x : w.handles) {
            longest = std::max(longest, x.age);
        }
    }
    if (longest > 2) {
        nontrivial();
    }
    state(h);
    interleaving(h);
    sample(std::to_string(operations) + " operations, references of up to " + std::to_string(longest) + " operations ago, into documents like " +
           ref::show(rv(*w.model[0]), 160));
}
} // namespace

const sim::World sim::world { "C22",
                              "each run draws 1-3 documents and 4-34 operations (assignments, members set, erased and merged, elements appended and erased, "
                              "content moved and swapped between any two places, copies, reads), some with a failing allocation; before and between these "
                              "references, iterators and views into the documents are taken, by which later operations are done; non-trivial: a reference "
                              "lived through three operations",
                              run, true, 64 };
