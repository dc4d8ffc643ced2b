// C20: the library used from within the functions of the application that it calls.
#include "programs.hpp"
#include "p11.hpp"

#include <istream>
#include <ostream>
#include <set>

namespace
{
using namespace programs;

// ---------------------------------------------------------------- the functions of the application
struct Held // a document that is being read by somebody further out
{
    const json::value* doc;
    const RV* model;
};
struct Now
{
    Group* w = nullptr;
    std::vector<size_t> next;   // item of every program
    std::vector<bool> busy;
    std::vector<Held> held;
    int depth = 0, deepest = 0;
    int64_t wait = 1;           // calls until something happens in one
    uint64_t gap = 1;
    uint64_t calls = 0, acts = 0, budget = 0;
    uint64_t hash = 20;
};
Now now;
void outer(int level);

void called(const char* where)
{
    ++now.calls;
    if (--now.wait > 0 || now.depth >= 3 || !now.budget) {
        return;
    }
    const mem::Plan memory = mem::plan;
    mem::plan = {};
    const p11::Plan hooks = p11::plan;
    p11::plan = {};
    now.wait = static_cast<int64_t>(1 + draw(now.gap));
    --now.budget;
    ++now.acts;
    ++now.depth;
    now.deepest = std::max(now.deepest, now.depth);
    note("%d: called from %s (call %llu)", now.depth, where, (unsigned long long)now.calls);
    fault(where);
    now.hash = mix(now.hash, mix(hash_str(where), static_cast<uint64_t>(now.depth)));
    try {
        outer(now.depth);
    }
    catch (const Violation& v) {
        threads::keep(v);
    }
    catch (const std::exception& e) {
        violate_later("unexpected-exception", std::string("an exception escaped to the application: ") + e.what());
    }
    note("%d: back to %s", now.depth, where);
    --now.depth;
    p11::plan = hooks;
    mem::plan = memory;
}

class CallingIn : public simio::In
{
public:
    using In::In;

protected:
    int_type underflow() override
    {
        called("a stream buffer that is read");
        return In::underflow();
    }
    std::streamsize xsgetn(char* s, std::streamsize n) override
    {
        called("a stream buffer that is read");
        const auto k = In::xsgetn(s, n);
        called("a stream buffer that is read");
        return k;
    }
    pos_type seekoff(off_type o, std::ios_base::seekdir dir, std::ios_base::openmode m) override
    {
        called("a stream buffer that is positioned");
        return In::seekoff(o, dir, m);
    }
};
class CallingOut : public simio::Out
{
protected:
    int_type overflow(int_type c) override
    {
        called("a stream buffer that is written to");
        return Out::overflow(c);
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        called("a stream buffer that is written to");
        const auto k = Out::xsputn(s, n);
        called("a stream buffer that is written to");
        return k;
    }
    int sync() override
    {
        called("a stream buffer that is flushed");
        return Out::sync();
    }
};
// Iterators of the application.
template <typename base_t>
class Iter
{
public:
    using iterator_category = std::random_access_iterator_tag;
    using value_type = typename std::iterator_traits<base_t>::value_type;
    using difference_type = std::ptrdiff_t;
    using pointer = const value_type*;
    using reference = const value_type&;
    Iter() = default;
    explicit Iter(base_t b) : b_(b) {}
    reference operator*() const
    {
        called("an iterator");
        return *b_;
    }
    pointer operator->() const { return &*b_; }
    reference operator[](difference_type n) const { return b_[n]; }
    Iter& operator++()
    {
        called("an iterator");
        ++b_;
        return *this;
    }
    Iter operator++(int) { return Iter(b_++); }
    Iter& operator--() { return --b_, *this; }
    Iter operator--(int) { return Iter(b_--); }
    Iter& operator+=(difference_type n) { return b_ += n, *this; }
    Iter& operator-=(difference_type n) { return b_ -= n, *this; }
    Iter operator+(difference_type n) const { return Iter(b_ + n); }
    friend Iter operator+(difference_type n, const Iter& i) { return i + n; }
    Iter operator-(difference_type n) const { return Iter(b_ - n); }
    difference_type operator-(const Iter& o) const { return b_ - o.b_; }
    bool operator==(const Iter& o) const { return b_ == o.b_; }
    bool operator!=(const Iter& o) const { return b_ != o.b_; }
    bool operator<(const Iter& o) const { return b_ < o.b_; }
    bool operator>(const Iter& o) const { return b_ > o.b_; }
    bool operator<=(const Iter& o) const { return b_ <= o.b_; }
    bool operator>=(const Iter& o) const { return b_ >= o.b_; }

private:
    base_t b_ {};
};
struct Text // a text to be parsed
{
    using value_type = char;
    using const_iterator = Iter<const char*>;
    std::string s;
    const_iterator begin() const { return const_iterator(s.data()); }
    const_iterator end() const { return const_iterator(s.data() + s.size()); }
    const_iterator cbegin() const { return begin(); }
    const_iterator cend() const { return end(); }
};
// An element: every copy is seen.
struct Element
{
    std::string s;
    Element() = default;
    explicit Element(std::string t) : s(std::move(t)) {}
    Element(const Element& o) : s((called("a copy constructor"), o.s)) {}
    Element(Element&& o) noexcept : s((called("a move constructor"), std::move(o.s))) {}
    Element& operator=(const Element& o)
    {
        called("an assignment");
        s = o.s;
        return *this;
    }
    Element& operator=(Element&& o) noexcept
    {
        called("an assignment");
        s = std::move(o.s);
        return *this;
    }
    ~Element() { called("a destructor"); }
    bool operator<(const Element& o) const
    {
        called("a comparison");
        return s < o.s;
    }
    json::value to_json() const
    {
        called("to_json");
        return s;
    }
    bool check_json(const json::value& v) const
    {
        called("check_json");
        return v.is_string();
    }
    bool from_json(const json::value& v)
    {
        called("from_json");
        s = v.as_string();
        called("from_json");
        return true;
    }
};
template <typename T>
struct Row // a collection
{
    using value_type = T;
    using iterator = typename std::vector<T>::iterator;
    using const_iterator = Iter<typename std::vector<T>::const_iterator>;
    std::vector<T> v;
    const_iterator begin() const { return const_iterator(v.begin()); }
    const_iterator end() const { return const_iterator(v.end()); }
    size_t size() const
    {
        called("size()");
        return v.size();
    }
    template <typename... A>
    T& emplace_back(A&&... a)
    {
        called("emplace_back");
        return v.emplace_back(std::forward<A>(a)...);
    }
    void reserve(size_t n)
    {
        called("reserve");
        v.reserve(n);
    }
};
struct Less
{
    bool operator()(const std::string& a, const std::string& b) const
    {
        called("a comparison of keys");
        return a < b;
    }
};
struct Record
{
    Element first;
    std::vector<Element> some;
    std::map<std::string, Element, Less> named;
    std::optional<Element> maybe;
    MEO_JSONIZATION(first, some, MEO_KEY("by name") named, MEO_OPT maybe);
};

// ---------------------------------------------------------------- what is done
std::string random_text()
{
    return ref::gen_string();
}
void same(const json::value& v, const RV& m, const char* what)
{
    bridge::expect_value(v, m, what);
}
RV as_model(const std::vector<Element>& xs)
{
    RV r = RV::arr();
    for (const auto& x : xs) {
        r.a.push_back(RV::str(x.s));
    }
    return r;
}
std::vector<Element> elements()
{
    std::vector<Element> xs;
    xs.reserve(8);
    for (uint64_t n = draw(5); n--;) {
        xs.emplace_back(random_text());
    }
    return xs;
}
void equal(const std::vector<Element>& a, const std::vector<Element>& b, const char* what)
{
    bool ok = a.size() == b.size();
    for (size_t i = 0; ok && i < a.size(); ++i) {
        ok = a[i].s == b[i].s;
    }
    if (!ok) {
        violate("value", std::string(what) + ": " + ref::show(as_model(a), 300) + " instead of " + ref::show(as_model(b), 300));
    }
}
std::optional<json::value> stream_load(const std::string& text, bool jsonc, bool& broken)
{
    CallingIn in(text);
    in.chunk = pick(1, 3, 16, 64, 4096);
    in.direct = draw(2);
    if (chance(1, 6)) {
        in.error_at = draw(text.size() + 1);
    }
    std::istream is(&in);
    auto r = json::parse(is, draw(2), jsonc);
    broken = in.hit_error;
    return r;
}
void stream_print(const json::value& v, const RV& m, std::string& wrote)
{
    CallingOut out;
    out.use_buffer(pick(0, 1, 7, 64, 4096));
    std::ostream os(&out);
    now.held.push_back({ &v, &m });
    os << v;
    os.flush();
    now.held.pop_back();
    if (!os) {
        violate("stream", "the stream failed");
    }
    wrote = out.stored;
}
void conversions()
{
    const uint64_t which = draw(6);
    switch (which) {
    case 0: { // a collection of the application
        Row<Element> row;
        row.v = elements();
        const RV m = as_model(row.v);
        json::value v = row;
        same(v, m, "a collection as document");
        if (!v.is<Row<Element>>()) {
            violate("check", "a collection does not pass its own check");
        }
        Row<Element> back = v.as<Row<Element>>();
        equal(back.v, row.v, "a collection read back");
        const json::array a { row };
        json::array b(row);
        same(json::value(b), m, "a collection as array");
        break;
    }
    case 1: {
        Row<json::value> row;
        RV m = RV::arr();
        for (uint64_t n = draw(4); n--;) {
            ref::Gen g;
            g.max_nodes = 5;
            m.a.push_back(ref::gen(g));
            row.v.push_back(bridge::plain(m.a.back()));
        }
        json::value v = row;
        same(v, m, "a collection of documents");
        v = std::move(row);
        same(v, m, "a moved collection of documents");
        break;
    }
    case 2: {
        std::map<std::string, Element, Less> x;
        RV m = RV::obj();
        for (auto& e : elements()) {
            const std::string k = random_text();
            if (x.emplace(k, e).second) {
                m.o[k] = RV::str(e.s);
            }
        }
        json::value v = x;
        same(v, m, "a map as document");
        if (!v.is<decltype(x)>()) {
            violate("check", "a map does not pass its own check");
        }
        auto y = draw(2) ? v.as<decltype(x)>() : static_cast<decltype(x)>(v);
        if (y.size() != x.size() || !std::equal(x.begin(), x.end(), y.begin(), [](auto& a, auto& b) { return a.first == b.first && a.second.s == b.second.s; })) {
            violate("value", "a map read back is another");
        }
        break;
    }
    case 3: {
        Record r;
        r.first = Element(random_text());
        r.some = elements();
        for (auto& e : elements()) {
            r.named[random_text()] = e;
        }
        if (draw(2)) {
            r.maybe = Element(random_text());
        }
        RV m = RV::obj();
        m.o["first"] = RV::str(r.first.s);
        m.o["some"] = as_model(r.some);
        RV n = RV::obj();
        for (auto& [k, e] : r.named) {
            n.o[k] = RV::str(e.s);
        }
        m.o["by name"] = n;
        m.o["maybe"] = r.maybe ? RV::str(r.maybe->s) : RV::null();
        json::value v = r;
        same(v, m, "a struct as document");
        Record back = v.as<Record>();
        equal(back.some, r.some, "a struct read back");
        if (back.first.s != r.first.s || back.named.size() != r.named.size() || back.maybe.has_value() != r.maybe.has_value()
            || (r.maybe && r.maybe->s != back.maybe->s)) {
            violate("value", "a struct read back is another");
        }
        for (auto& [k, e] : back.named) {
            if (n.o[k] != RV::str(e.s)) {
                violate("value", "a struct read back is another");
            }
        }
        break;
    }
    case 4: {
        std::vector<Element> x = elements();
        const RV m = as_model(x);
        json::value holder = json::object { { "x", draw(2) ? json::value(x) : json::value(json::array(x)) } };
        same(holder.at("x"), m, "a vector as document");
        equal(holder.get("x", std::vector<Element>()), x, "get");
        auto found = holder.find<std::vector<Element>>("x");
        if (!found) {
            violate("value", "find<> found nothing");
        }
        equal(*found, x, "find");
        std::set<Element> s = holder.at("x").as<std::set<Element>>();
        std::set<std::string> t;
        for (auto& e : x) {
            t.insert(e.s);
        }
        if (s.size() != t.size() || !std::equal(s.begin(), s.end(), t.begin(), [](auto& a, auto& b) { return a.s == b; })) {
            violate("value", "a set read back is another");
        }
        break;
    }
    default: {
        std::tuple<Element, int, std::pair<Element, bool>> x { Element(random_text()), static_cast<int>(draw(100)), { Element(random_text()), true } };
        RV m = RV::arr();
        m.a.push_back(RV::str(std::get<0>(x).s));
        m.a.push_back(RV::num(std::to_string(std::get<1>(x))));
        m.a.push_back(RV::arr());
        m.a[2].a.push_back(RV::str(std::get<2>(x).first.s));
        m.a[2].a.push_back(RV::boolean(true));
        json::value v = x;
        same(v, m, "a tuple as document");
        auto y = v.as<decltype(x)>();
        if (std::get<0>(y).s != std::get<0>(x).s || std::get<1>(y) != std::get<1>(x) || std::get<2>(y).first.s != std::get<2>(x).first.s) {
            violate("value", "a tuple read back is another");
        }
        std::variant<int, Element, std::vector<Element>> z = Element(random_text());
        json::value u = z;
        same(u, RV::str(std::get<1>(z).s), "a variant as document");
        auto back = u.as<decltype(z)>();
        if (back.index() != 1 || std::get<1>(back).s != std::get<1>(z).s) {
            violate("value", "a variant read back is another");
        }
    }
    }
}
void item_of(size_t p)
{
    Thread& me = now.w->threads[p];
    Item& it = me.items[now.next[p]];
    if (!now.next[p]) {
        begin(*now.w, me);
    }
    now.busy[p] = true;
    note("%d: item %zu of program %zu", now.depth, now.next[p], p);
    item(me, it, [&](std::vector<json::value>& docs, bool check) {
        if (it.what == What::Stream) {
            bool broken = false;
            auto r = stream_load(it.text, it.dialect == Dialect::Jsonc, broken);
            if (r && broken) {
                violate("parse", "a document in spite of a broken stream");
            }
            if (!broken && (r || check)) { // (a stream keeps failed allocations to itself)
                parsed(r, it);
            }
        }
        else if (it.what == What::Print && it.form % 6 == 5 && check) {
            const size_t d = static_cast<size_t>(it.doc);
            stream_print(docs[d], it.after[d], it.wrote);
        }
        else {
            perform(*now.w, me, it, docs, check);
        }
    });
    now.busy[p] = false;
    ++now.next[p];
}

void outer(int level)
{
    step();
    switch (draw(6)) {
    case 0: {
        std::vector<size_t> free;
        for (size_t p = 0; p < now.next.size(); ++p) {
            if (!now.busy[p] && now.next[p] < now.w->threads[p].items.size()) {
                free.push_back(p);
            }
        }
        if (!free.empty()) {
            return item_of(free[draw(free.size())]);
        }
        [[fallthrough]];
    }
    case 1: { // what is being read by another is read
        if (!now.held.empty()) {
            const Held h = now.held[draw(now.held.size())];
            probe("the document that is being written is read");
            same(*h.doc, *h.model, "the document that is being written");
            const std::string s = print(*h.doc, draw(6));
            auto r = ref::parse("[" + s + "]", Dialect::Strict);
            if (!r || r->a.size() != 1 || r->a[0] != *h.model) {
                violate("text", "the document that is being written was written as " + show(s, 300));
            }
            return;
        }
        [[fallthrough]];
    }
    case 2:
        probe("conversion with hooks that fail");
        return p11::dispatch(draw(p11::All::size));
    case 3:
        probe("conversion with types of the application");
        return conversions();
    case 4: {
        ref::Gen g;
        g.max_nodes = 8;
        RV m = ref::gen(g, true);
        const Dialect d = draw(2) ? Dialect::Jsonc : Dialect::Strict;
        Text t { ref::write(m, d) };
        if (chance(1, 3) && !t.s.empty()) {
            t.s.erase(draw(t.s.size()), 1 + draw(3));
        }
        const auto want = ref::parse(t.s, d);
        probe("parsing text of the application");
        note("%d: text %s", level, show(t.s, 200).c_str());
        const auto got = d == Dialect::Jsonc ? json::parsec(t) : json::parse(t);
        if (got.has_value() != want.has_value()) {
            violate("parse", std::string(got ? "accepted: " : "refused: ") + show(t.s, 300));
        }
        if (got) {
            same(*got, *want, "parsed document");
        }
        return;
    }
    default: {
        ref::Gen g;
        g.max_nodes = 10;
        const RV m = ref::gen(g, true);
        const json::value v = draw(2) ? bridge::plain(m) : bridge::build(m);
        std::string wrote;
        probe("printing to a stream of the application");
        stream_print(v, m, wrote);
        auto r = ref::parse(wrote, Dialect::Strict);
        if (!r || *r != m || wrote != v.format()) {
            violate("text", "written as " + show(wrote, 300));
        }
        bool broken = false;
        auto back = stream_load(wrote, false, broken);
        if (!broken && (!back || !(bridge::read(*back) == m))) {
            violate("parse", "not read back: " + show(wrote, 300));
        }
    }
    }
}

void run()
{
    ref::unusual_sizes = chance(1, 20);
    Group w;
    ref::Gen g;
    g.max_nodes = 10;
    w.model = ref::gen(g, draw(4) != 0);
    w.original = draw(2) ? bridge::build(w.model) : bridge::plain(w.model);
    const size_t n = 1 + draw(3);
    w.threads.resize(n);
    draw_habit(w);
    p11::plan = {};
    const size_t common_type = draw(universe::types);
    for (size_t t = 0; t < n; ++t) {
        draw_program(w, t, false, common_type);
        for (Item& it : w.threads[t].items) {
            if (it.what == What::Convert || it.what == What::Receive) {
                it.fail_at = 0; // (C06 does that; the program's own copies are not to fail)
            }
        }
    }
    now = {};
    now.w = &w;
    now.next.assign(n, 0);
    now.busy.assign(n, false);
    now.gap = pick(1, 2, 4, 10, 40, 200);
    now.budget = pick(3, 8, 20);
    now.wait = static_cast<int64_t>(1 + draw(now.gap));
    p11::on_hook = [] { called("a conversion hook"); };
    for (uint64_t k = 1 + draw(tier() ? 5 : 3); k--;) {
        outer(0);
    }
    p11::on_hook = nullptr;
    now.budget = 0;
    checkpoint();
    threads::job = nullptr;
    same(w.original, w.model, "the common original after all");
    for (size_t p = 0; p < n; ++p) {
        Thread& me = w.threads[p];
        for (size_t i = 0; i < me.docs.size() && now.next[p]; ++i) {
            same(me.docs[i], me.items[now.next[p] - 1].after[i], "a program's document after all");
        }
        for (size_t k = 0; k < now.next[p]; ++k) {
            Item& it = me.items[k];
            if (it.what == What::Print) {
                const std::string solo = print(bridge::plain(it.after[static_cast<size_t>(it.doc)]), it.form);
                if (solo != it.wrote) {
                    violate("text", "a program wrote " + show(it.wrote, 300) + " for what is " + show(solo, 300) + " when written alone");
                }
            }
        }
    }
    if (now.acts) {
        nontrivial();
    }
    state(now.hash);
    interleaving(now.hash);
    sample(std::to_string(now.acts) + " operations within calls of the application's functions, nested " + std::to_string(now.deepest) + " deep");
    now = {};
}
} // namespace

const sim::World sim::world { "C20",
                              "each run draws 1-3 programs with documents of their own and performs operations (stream reading and printing, parsing text "
                              "behind the application's iterators, conversions of the application's types and containers, also with hooks that fail); at "
                              "drawn calls of the application's functions (stream buffers, hooks, iterators, containers, copies, comparisons) other operations "
                              "are performed, nested up to three deep; every result is compared with the model; non-trivial: something was done within a call",
                              run, true, 64 };
