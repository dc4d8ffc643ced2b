// C14: a receiver of one type and the messages that reach it.
#include "forms.hpp"
#include "load.hpp"
#include "p14.hpp"
#include "skew.hpp"
#include "universe.hpp"

namespace
{
using namespace sim;
using ref::K;
using ref::RV;
using typed::Conf;

template <typename W>
struct F
{
    using T = typename W::type;
    using Y = typed::Ty<T>;

    static void right(const T& x, const RV& m, const char* what)
    {
        if (!Y::eq(x, Y::from(m))) {
            violate("value", std::string(what) + " gave " + ref::show(Y::rv(x), 400) + " for " + ref::show(m, 400));
        }
    }
    template <typename Fn>
    static void converts(const json::value& d, bool is, Conf c, const RV& m, const char* what, Fn&& fn)
    {
        std::optional<T> x;
        std::string thrown;
        try {
            x.emplace(fn());
        }
        catch (const json::exception& e) {
            thrown = e.what();
            if (thrown.empty()) {
                violate("conversion", std::string(what) + " threw a json::exception without text");
            }
        }
        catch (const std::exception& e) {
            violate("conversion", std::string(what) + " threw another exception, " + e.what() + ", for " + ref::show(m, 300));
        }
        if (is && !x) {
            violate("conversion", std::string("is() is true, but ") + what + " threw \"" + thrown + "\" for " + ref::show(m, 300));
        }
        if (!is && x) {
            violate("conversion", std::string("is() is false, but ") + what + " returned " + ref::show(Y::rv(*x), 300) + " for " + ref::show(m, 300));
        }
        if (x && c == Conf::Yes) {
            right(*x, m, what);
        }
    }

    static void receive(const json::value& d, const RV& m)
    {
        const Conf c = Y::conforms(m);
        const bool is = d.is<T>();
        note("conforms: %s, is: %d", c == Conf::Yes ? "yes" : c == Conf::No ? "no" : "open", (int)is);
        if (c != Conf::Either && is != (c == Conf::Yes)) {
            violate("check", std::string("is() is ") + (is ? "true" : "false") + " for " + ref::show(m, 400));
        }
        probe(is ? "accepted" : "rejected");
        for (uint64_t n = 1 + draw(3); n--;) {
            step();
            const uint64_t how = draw(12);
            note("form %d", (int)how);
            switch (how) {
            case 0:
                converts(d, is, c, m, "as on a const document", [&] { return std::as_const(d).template as<T>(); });
                break;
            case 1: {
                json::value v = d;
                converts(d, is, c, m, "as", [&] { return v.template as<T>(); });
                bridge::expect_value(v, m, "document after as");
                break;
            }
            case 2: {
                json::value v = d;
                converts(d, is, c, m, "as of a moved document", [&] { return std::move(v).template as<T>(); });
                break;
            }
            case 3:
                if constexpr (!std::is_same_v<T, json::value> && !typed::is_optional_v<T>) {
                    converts(d, is, c, m, "conversion", [&] { return static_cast<T>(std::as_const(d)); });
                }
                break;
            case 4: { // find in an object
                json::object o { { "before", 1 }, { "k", d } };
                json::value ov = o;
                auto r = draw(2) ? o.find<T>("k") : std::as_const(ov).template find<T>("k");
                if (r.has_value() != is) {
                    violate("find", std::string("find in an object ") + (r ? "found" : "did not find") + " " + ref::show(m, 300));
                }
                if (r && c == Conf::Yes) {
                    right(*r, m, "find in an object");
                }
                if (o.find<T>("K") || ov.find<T>("k ") || ov.find<T>(size_t(0))) {
                    violate("find", "find returned something for a key that is not there");
                }
                break;
            }
            case 5: { // find in an array
                json::array a { d, 1, d };
                json::value av = a;
                const size_t at = draw(2) * 2;
                auto r = draw(2) ? a.find<T>(at) : std::as_const(av).template find<T>(at);
                if (r.has_value() != is) {
                    violate("find", std::string("find in an array ") + (r ? "found" : "did not find") + " " + ref::show(m, 300));
                }
                if (r && c == Conf::Yes) {
                    right(*r, m, "find in an array");
                }
                if (a.find<T>(3) || av.find<T>(3) || av.find<T>("0")) {
                    violate("find", "find returned something for a position that is not there");
                }
                break;
            }
            case 6:
                // (a default that converts to std::string makes get return a string)
                if constexpr (typed::copyable<T> && !json::_utils::should_return_string<T>) {
                    const RV other = Y::rv(Y::gen(1));
                    if (!W::exact && Y::conforms(other) != Conf::Yes) {
                        break;
                    }
                    const T def = Y::from(other);
                    json::value deep = json::object { { "x", json::array { 0, json::object { { "y", d } } } }, { "k", d } };
                    const bool path = draw(2);
                    T r = path ? deep.get("x", 1, "y", def) : deep.get("k", def);
                    if (is ? c == Conf::Yes && !Y::eq(r, Y::from(m)) : !Y::eq(r, def)) {
                        violate("get", "get returned " + ref::show(Y::rv(r), 300) + " for " + ref::show(m, 300) + ", default " + ref::show(other, 300));
                    }
                    T miss = path ? deep.get("x", 1, "z", def) : draw(2) ? deep.get("x", "k", def) : deep.get(0, def);
                    if (!Y::eq(miss, def)) {
                        violate("get", "get of a missing path returned " + ref::show(Y::rv(miss), 300) + ", default " + ref::show(other, 300));
                    }
                }
                break;
            case 7: { // all: every element has to conform
                const bool arr = draw(2), two = draw(2);
                const RV second = two ? Y::rv(Y::gen(1)) : m;
                const Conf c2 = Y::conforms(second);
                const size_t count = 2 + draw(4), at = draw(count); // d is at `at`, the others are second
                json::value v;
                if (arr) {
                    json::array a;
                    for (size_t i = 0; i < count; ++i) {
                        a.push_back(i == at ? d : bridge::plain(second));
                    }
                    if (draw(2) && a.all<T>() != json::value(a).all<T>()) {
                        violate("all", "array and value disagree");
                    }
                    v = a;
                }
                else {
                    json::object o;
                    for (size_t i = 0; i < count; ++i) {
                        o["k" + std::to_string(i)] = i == at ? d : bridge::plain(second);
                    }
                    if (draw(2) && o.all<T>() != json::value(o).all<T>()) {
                        violate("all", "object and value disagree");
                    }
                    v = o;
                }
                if (c2 != Conf::Either && v.all<T>() != (is && c2 == Conf::Yes)) {
                    violate("all", "all() is wrong for " + ref::show(m, 300) + " and " + ref::show(second, 300));
                }
                if (json::array().all<T>() != true || json::object().all<T>() != true) {
                    violate("all", "all() is false for an empty container");
                }
                break;
            }
            case 8: { // in a container, in an optional: the same answer
                json::value v = json::array { d, d };
                const bool vec = v.is<std::vector<T>>();
                const bool opt = d.is<std::optional<T>>();
                const bool fix = v.is<std::array<T, 2>>() && !v.is<std::array<T, 1>>() && !v.is<std::array<T, 3>>();
                const bool map = json::value(json::object { { "a", d } }).template is<std::map<std::string, T>>();
                const bool tup = v.is<std::pair<T, T>>() && !json::value(json::array { d, d, d }).template is<std::pair<T, T>>();
                if (vec != is || opt != (is || m.k == K::Null) || fix != is || map != is || tup != is) {
                    violate("nested check",
                            "is<T> " + std::to_string(is) + ", vector " + std::to_string(vec) + ", optional " + std::to_string(opt) + ", array "
                                + std::to_string(fix) + ", map " + std::to_string(map) + ", pair " + std::to_string(tup) + " for " + ref::show(m, 300));
                }
                break;
            }
            case 9: // from the array or object itself
                if constexpr (forms::any<T>) {
                    if (!forms::holds<T>(d)) {
                        break;
                    }
                    const uint64_t way = draw(forms::out_ways);
                    json::value v = d;
                    if (way < 2) {
                        converts(d, is, c, m, "conversion of an array or object", [&] { return forms::out<T>(forms::part<T>(std::as_const(v)), way); });
                        bridge::expect_value(v, m, "document after the conversion of its array or object");
                    }
                    else {
                        converts(d, is, c, m, "conversion of a moved array or object", [&] { return forms::out_moved<T>(std::move(forms::part<T>(v)), way); });
                    }
                    probe("array or object converted");
                }
                break;
            default:
                if constexpr (p14::is_struct<Y, T>::value) {
                    bool open = false;
                    const char* bad = m.k == K::Obj ? Y::offending(m, &open) : Y::offending(RV::obj());
                    // the state the message is loaded into
                    const RV origin = Y::rv(Y::gen(1));
                    T cur = Y::from(origin), want = Y::from(origin);
                    std::string key = "(none)", key2 = "(none)";
                    const bool checked = cur.check_json(d, key);
                    if (checked != is) {
                        violate("struct check", "check_json and is() disagree for " + ref::show(m, 300));
                    }
                    if (!Y::eq(cur, want)) {
                        violate("struct check", "check_json changed the struct");
                    }
                    const bool loaded = draw(2) ? cur.from_json(d, key2) : (key2 = key, cur.from_json(d));
                    if (loaded != is) {
                        violate("struct load", "from_json and is() disagree for " + ref::show(m, 300));
                    }
                    if (!is && !open && bad && (key != bad || key2 != bad)) {
                        violate("offending field", std::string("the first offending field is \"") + bad + "\", reported are \"" + show(key) + "\" and \"" +
                                                       show(key2) + "\" for " + ref::show(m, 300));
                    }
                    if (is && c == Conf::Yes) {
                        if (m.k == K::Obj) {
                            Y::into(m, want);
                        }
                        if (!Y::eq(cur, want)) {
                            violate("struct load", "loading " + ref::show(m, 300) + " into " + ref::show(origin, 300) + " gave " + ref::show(Y::rv(cur), 300) +
                                                       " instead of " + ref::show(Y::rv(want), 300));
                        }
                    }
                    if (bad) {
                        probe("first offending field compared");
                    }
                }
            }
            bridge::expect_value(d, m, "document after a check or conversion");
        }
    }

    static void go()
    {
        if (p14::sender) { // only a message of this type is wanted
            *p14::sender = Y::rv(Y::gen(2));
            return;
        }
        // messages on the wire: (text), delivered in any order, maybe twice, maybe damaged, maybe never
        std::vector<std::string> wire;
        std::vector<RV> direct;
        const size_t n = 1 + draw(3);
        for (size_t i = 0; i < n; ++i) {
            RV m = Y::rv(Y::gen(3)), donor;
            if (chance(1, 8)) { // a message meant for somebody else
                p14::sender = &m;
                universe::dispatch(draw(universe::All::size));
                p14::sender = nullptr;
                fault("message: another type");
            }
            if (draw(2)) {
                p14::sender = &donor;
                universe::dispatch(draw(universe::All::size));
                p14::sender = nullptr;
            }
            for (uint64_t k = draw(4); k--;) {
                skew::once(m, &donor);
            }
            if (draw(2)) {
                direct.push_back(std::move(m));
                continue;
            }
            RV box = RV::arr();
            box.a.push_back(std::move(m));
            std::string t = ref::write(box, ref::Dialect::Strict);
            if (chance(1, 4) && !t.empty()) {
                const size_t at = draw(t.size());
                switch (draw(4)) {
                case 0:
                    t[at] = static_cast<char>(t[at] ^ (1u << draw(8)));
                    fault("wire: bit flipped");
                    break;
                case 1:
                    t.erase(at, 1 + draw(8));
                    fault("wire: bytes lost");
                    break;
                case 2:
                    t.resize(at);
                    fault("wire: cut off");
                    break;
                default:
                    t.insert(at, t.substr(draw(t.size()), 1 + draw(8)));
                    fault("wire: bytes repeated");
                }
            }
            if (chance(1, 6)) {
                fault("wire: message duplicated");
                wire.push_back(t);
            }
            if (chance(1, 6) && !wire.empty()) {
                fault("wire: messages reordered");
                std::swap(wire[draw(wire.size())], t);
            }
            wire.push_back(std::move(t));
        }
        for (auto& m : direct) {
            note("message %s", ref::show(m, 400).c_str());
            state(mix(ref::hash(m), 14));
            receive(draw(2) ? bridge::plain(m) : bridge::build(m), m);
        }
        for (auto& t : wire) {
            note_bytes("on the wire", t);
            auto says = ref::parse(t, ref::Dialect::Strict);
            auto got = load::memory(t, ref::Dialect::Strict, draw(7));
            if (got.has_value() != says.has_value()) {
                violate("load", std::string(got ? "a damaged message was accepted: " : "a message was refused: ") + show(t, 300));
            }
            if (!says) {
                probe("damaged message refused");
                continue;
            }
            bridge::expect_value(*got, *says, "received document");
            if (says->k == K::Arr && says->a.size() == 1) {
                state(mix(ref::hash(*says), 15));
                receive(got->as_array().at(0), says->a[0]);
            }
            else {
                receive(*got, *says);
            }
        }
        nontrivial();
        sample("messages to " + std::string(p14::type_name<T>()));
    }
};
} // namespace
template <>
void universe::entry<CHUNK>(size_t i)
{
    call_chunk<F, CHUNK>(All {}, i);
}
