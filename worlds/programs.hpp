// C10, C20: programs that work on documents of their own, and on copies of a common original.
#pragma once
#include "core.hpp"
#include "load.hpp"
#include "ops.hpp"
#include "skew.hpp"
#include "threads.hpp"

#include <sstream>

namespace universe // (types in the other units)
{
void dispatch_any(size_t i);
extern const size_t types;
}

namespace programs
{
using namespace sim;
using ref::K;
using ref::RV;
using ref::Dialect;

enum class What
{
    Step,    // an operation of the history on own documents
    Parse,   // a text, well-formed or not
    Stream,  // the same from an own stream
    Print,   // own document to text and back
    Convert, // own value of a type
    Receive, // own message for a type
    Copy,    // another copy of the common original
    N
};
inline const char* const names[] = { "step", "parse", "parse stream", "print", "convert", "receive", "copy" };
struct Item
{
    What what;
    ops::Step s;
    ops::Out want;
    std::vector<RV> after; // documents afterwards
    std::string text;
    Dialect dialect = Dialect::Strict;
    std::optional<RV> parsed;
    int doc = 0;
    size_t type = 0;
    std::shared_ptr<void> own;
    RV node;
    uint64_t form = 0;
    uint64_t fail_at = 0;
    bool lasting = false;
    std::string wrote;
};
struct Thread
{
    std::vector<json::value> docs;
    std::vector<RV> start;
    std::vector<bool> copied; // from the original, by the thread itself
    std::vector<Item> items;
};
struct Group
{
    json::value original;
    RV model;
    std::vector<Thread> threads;
    int usual = -1; // what programs mostly do
};
// Programs tend to do the same thing at the same time.
inline void draw_habit(Group& w)
{
    ops::usual_op = -1;
    w.usual = -1;
    if (draw(2)) {
        w.usual = static_cast<int>(draw(2) ? 0 : draw(static_cast<uint64_t>(What::N)));
        if (w.usual == static_cast<int>(What::Step)) {
            ops::usual_op = static_cast<int>(draw(static_cast<uint64_t>(ops::Op::N)));
            ops::usual_variant = static_cast<int>(draw(24));
        }
    }
}

inline std::string print(const json::value& v, uint64_t form)
{
    switch (form % 6) {
    case 0:
        return v.to_string();
    case 1:
        return v.format();
    case 2:
        return v.format(form % 9);
    case 3:
        return v.dumps();
    case 4:
        return v.dumps(form % 7);
    default: {
        std::ostringstream os;
        os << v;
        if (!os) {
            throw std::bad_alloc(); // (what else can fail in a string stream)
        }
        return os.str();
    }
    }
}

inline void parsed(const std::optional<json::value>& r, const Item& it)
{
    if (r.has_value() != it.parsed.has_value()) {
        violate("parse", std::string(r ? "accepted: " : "refused: ") + show(it.text, 300));
    }
    if (r) {
        bridge::expect_value(*r, *it.parsed, "parsed document");
    }
}

// once: with the documents as they are and a failing allocation, on copies
inline void perform(Group& w, Thread& t, Item& it, std::vector<json::value>& docs, bool check)
{
    switch (it.what) {
    case What::Step: {
        ops::Out got = ops::real(it.s, docs);
        if (check && !(got == it.want)) {
            violate(std::string("result/") + ops::name(it.s.op), ops::show(it.s) + " reported " + ops::show(got) + " instead of " + ops::show(it.want));
        }
        break;
    }
    case What::Parse:
        parsed(load::memory(it.text, it.dialect, it.form % 7), it);
        break;
    case What::Stream: {
        std::istringstream is(it.text);
        std::istream& i = is;
        std::optional<json::value> r = json::parse(i, false, it.dialect == Dialect::Jsonc);
        if (!r && i.bad()) {
            break; // the stream kept a failed allocation to itself
        }
        parsed(r, it);
        break;
    }
    case What::Print:
        it.wrote = print(docs[static_cast<size_t>(it.doc)], it.form);
        break;
    case What::Convert:
    case What::Receive: {
        threads::Job j;
        j.what = it.what == What::Convert ? threads::Do::Convert : threads::Do::Receive;
        j.own = it.own;
        j.want = &it.node;
        j.form = it.form;
        threads::job = &j;
        universe::dispatch_any(it.type);
        break;
    }
    case What::Copy:
        docs[static_cast<size_t>(it.doc)] = w.original;
        break;
    case What::N:
        break;
    }
    (void)t;
}

// The copies a program makes itself.
inline void begin(Group& w, Thread& me)
{
    for (size_t i = 0; i < me.docs.size(); ++i) {
        if (me.copied[i]) {
            me.docs[i] = w.original;
        }
    }
}

// One item, first with its failing allocation, if it has one; `act(docs, check)` performs it.
template <typename F>
void item(Thread& me, Item& it, F&& act)
{
    if (it.fail_at) {
        std::vector<json::value> copy = me.docs;
        if (!threads::with_failure(it.fail_at, it.lasting, [&] { act(copy, false); })) {
            for (auto& d : copy) {
                (void)bridge::read(d); // whatever is left is a document
            }
        }
    }
    act(me.docs, true);
    if (it.what == What::Print) {
        const RV& m = it.after[static_cast<size_t>(it.doc)];
        auto r = ref::parse("[" + it.wrote + "]", Dialect::Strict);
        if (!r || r->a.size() != 1 || r->a[0] != m) {
            violate("text", "a thread wrote " + show(it.wrote, 300) + " for " + ref::show(m, 300));
        }
    }
    if (it.what == What::Step || it.what == What::Copy) {
        for (size_t i = 0; i < me.docs.size(); ++i) {
            bridge::expect_value(me.docs[i], it.after[i], std::string("own document ") + std::to_string(i) + " after " +
                                                             (it.what == What::Step ? ops::name(it.s.op) : "a copy"));
        }
    }
}

// Draws the documents and the items of program t. Returns the number of items.
inline size_t draw_program(Group& w, size_t t, bool deep, size_t common_type)
{
    size_t items = 0;
    Thread& me = w.threads[t];
    const size_t n = 1 + draw(2);
    std::vector<RV> m;
    for (size_t i = 0; i < n; ++i) {
        const uint64_t how = draw(3);
        me.copied.push_back(how == 1);
        if (how == 2) {
            ref::Gen g;
            g.max_nodes = 8;
            m.push_back(ref::gen(g, draw(4) != 0));
            me.docs.push_back(bridge::plain(m[i]));
        }
        else {
            m.push_back(w.model);
            me.docs.push_back(how == 0 ? w.original : json::value());
        }
        note("thread %zu document %zu (%s) = %s", t, i, how == 0 ? "copy made before" : how == 1 ? "copy made by the thread" : "its own",
             ref::show(m[i], 300).c_str());
    }
    me.start = m;
    for (size_t k = 1 + draw(tier() ? 9 : 6); k--;) {
        Item it;
        it.what = w.usual >= 0 && draw(8) ? static_cast<What>(w.usual) : static_cast<What>(draw(static_cast<uint64_t>(What::N)));
        if (deep && draw(2)) {
            it.what = What::Parse;
        }
        it.form = draw(1000);
        it.doc = static_cast<int>(draw(n));
        it.type = draw(2) ? common_type : draw(universe::types);
        switch (it.what) {
        case What::Step:
            it.s = ops::gen(m);
            it.want = ops::model(it.s, m);
            break;
        case What::Parse:
        case What::Stream: {
            it.dialect = draw(2) ? Dialect::Jsonc : Dialect::Strict;
            ref::Gen g;
            g.max_nodes = 8;
            it.text = draw(4) && !deep ? ref::write(ref::gen(g), it.dialect) : ref::write(w.model, it.dialect);
            if (chance(1, 3) && !it.text.empty()) {
                it.text.erase(draw(it.text.size()), 1 + draw(3));
                fault("damaged text in one thread");
            }
            it.parsed = ref::parse(it.text, it.dialect);
            break;
        }
        case What::Convert:
        case What::Receive: {
            threads::Job j;
            j.what = it.what == What::Convert ? threads::Do::Value : threads::Do::Message;
            j.out = &it.node;
            threads::job = &j;
            universe::dispatch_any(it.type);
            it.own = std::move(j.own);
            if (it.what == What::Receive) {
                for (uint64_t c = draw(3); c--;) {
                    skew::once(it.node);
                }
            }
            break;
        }
        case What::Copy:
            m[static_cast<size_t>(it.doc)] = w.model;
            break;
        default:
            break;
        }
        it.after = m;
        if (chance(1, 5)) {
            it.fail_at = 1 + draw(16);
            it.lasting = draw(2);
        }
        note("thread %zu: %s form %d doc %d type %zu fail %d/%d %s", t, names[static_cast<int>(it.what)], (int)it.form, it.doc, it.type,
             (int)it.fail_at, (int)it.lasting,
             it.what == What::Step                                     ? ops::show(it.s).c_str()
             : it.what == What::Parse || it.what == What::Stream       ? show(it.text, 200).c_str()
             : it.what == What::Convert || it.what == What::Receive ? ref::show(it.node, 200).c_str()
                                                                       : "");
        probe(names[static_cast<int>(it.what)]);
        if (it.want.failed) {
            fault("refused operation in one thread");
        }
        ++items;
        me.items.push_back(std::move(it));
    }
    return items;
}
} // namespace programs
