// C14: a passed type check guarantees the conversion, for messages from any peer.
#include "p14.hpp"
#include "bridge.hpp"
#include "skew.hpp"
#include "universe.hpp"

ref::RV* p14::sender = nullptr;

namespace
{
using namespace sim;
using ref::K;
using ref::RV;
using typed::Conf;

template <typename T, typename Fn>
void named(const RV& m, Conf c, const char* what, Fn&& fn)
{
    std::optional<T> x;
    try {
        x.emplace(fn());
    }
    catch (const json::exception&) {
    }
    catch (const std::exception& e) {
        violate("conversion", std::string(what) + " threw another exception, " + e.what() + ", for " + ref::show(m, 300));
    }
    if (c != Conf::Either && x.has_value() != (c == Conf::Yes)) {
        violate("conversion", std::string(what) + (x ? " succeeded for " : " threw for ") + ref::show(m, 300));
    }
    if (x && c == Conf::Yes && !typed::Ty<T>::eq(*x, typed::Ty<T>::from(m))) {
        violate("value", std::string(what) + " gave " + ref::show(typed::Ty<T>::rv(*x)) + " for " + ref::show(m, 300));
    }
}
template <typename T, typename Fn>
void number(const json::value& d, const RV& m, const char* what, Fn&& fn)
{
    const Conf c = typed::Ty<T>::conforms(m);
    if (c != Conf::Either && d.is<T>() != (c == Conf::Yes)) {
        violate("check", std::string("is<> before ") + what + " is wrong for " + ref::show(m, 300));
    }
    named<T>(m, c, what, fn);
    named<T>(m, c, what, [&] { return static_cast<T>(d); });
    if (c != Conf::Either) { // get with a number as default
        json::value h = json::object { { "k", d } };
        const T def = static_cast<T>(draw(2) ? 77 : 0);
        const T got = h.get("k", def);
        if (!typed::Ty<T>::eq(got, c == Conf::Yes ? typed::Ty<T>::from(m) : def)) {
            violate("get", std::string("get before ") + what + " is wrong for " + ref::show(m, 300));
        }
    }
}
// The accessors that are named after a kind.
void accessors()
{
    RV m;
    switch (draw(4)) {
    case 0:
        m = RV::num(ref::gen_number());
        break;
    case 1:
        m = RV::num(ref::gen_int_number());
        break;
    case 2: {
        ref::Gen g;
        g.max_nodes = 4;
        m = ref::gen(g, false);
        break;
    }
    default:
        m = RV::num(skew::number_near(ref::gen_int_number()));
    }
    for (uint64_t k = draw(3); k--;) {
        skew::once(m);
    }
    note("document %s", ref::show(m, 400).c_str());
    state(mix(ref::hash(m), 13));
    json::value d = bridge::build(m);
    const json::value& cd = d;
    for (uint64_t n = 2 + draw(4); n--;) {
        step();
        switch (draw(16)) {
        case 0:
            number<int>(d, m, "as_integer", [&] { return cd.as_integer(); });
            break;
        case 1:
            number<unsigned>(d, m, "as_unsigned", [&] { return cd.as_unsigned(); });
            break;
        case 2:
            number<long>(d, m, "as_long", [&] { return cd.as_long(); });
            break;
        case 3:
            number<unsigned long>(d, m, "as_unsigned_long", [&] { return cd.as_unsigned_long(); });
            break;
        case 4:
            number<long long>(d, m, "as_long_long", [&] { return cd.as_long_long(); });
            break;
        case 5:
            number<unsigned long long>(d, m, "as_unsigned_long_long", [&] { return cd.as_unsigned_long_long(); });
            break;
        case 6:
            number<float>(d, m, "as_float", [&] { return cd.as_float(); });
            break;
        case 7:
            number<double>(d, m, "as_double", [&] { return cd.as_double(); });
            break;
        case 8:
            number<long double>(d, m, "as_long_double", [&] { return cd.as_long_double(); });
            break;
        case 9:
            named<bool>(m, typed::yes(m.k == K::Bool), "as_boolean", [&] { return cd.as_boolean(); });
            break;
        case 10:
            named<std::string>(m, typed::yes(m.k == K::Str), "as_string", [&] { return cd.as_string(); });
            named<std::string>(m, typed::yes(m.k == K::Str), "as_string_view", [&] { return std::string(cd.as_string_view()); });
            named<std::string>(m, typed::yes(m.k == K::Str), "conversion to a string view", [&] { return std::string(static_cast<std::string_view>(cd)); });
            if (cd.is<std::string_view>() != (m.k == K::Str)) {
                violate("check", "is<string_view> is wrong for " + ref::show(m, 300));
            }
            break;
        case 11: {
            const bool a = m.k == K::Arr, o = m.k == K::Obj;
            named<json::array>(m, typed::yes(a), "as_array", [&] { return cd.as_array(); });
            named<json::object>(m, typed::yes(o), "as_object", [&] { return cd.as_object(); });
            named<json::array>(m, typed::yes(a), "conversion to an array", [&] { return static_cast<json::array>(cd); });
            named<json::object>(m, typed::yes(o), "conversion to an object", [&] { return static_cast<json::object>(cd); });
            break;
        }
        case 12: {
            const std::pair<bool, K> kinds[] = { { cd.is_null(), K::Null },   { cd.is_boolean(), K::Bool }, { cd.is_number(), K::Num },
                                                 { cd.is_string(), K::Str }, { cd.is_array(), K::Arr },    { cd.is_object(), K::Obj } };
            for (auto& [yes, k] : kinds) {
                if (yes != (k == m.k)) {
                    violate("check", "an is_...() is wrong for " + ref::show(m, 300));
                }
            }
            static const char* const names[] = { "null", "boolean", "number", "string", "array", "object" };
            if (!cd.valid() || cd.type_name() != names[static_cast<size_t>(m.k)]) {
                violate("check", "valid() or type_name() is wrong for " + ref::show(m, 300) + ": " + cd.type_name());
            }
            break;
        }
        case 13: {
            const bool null = m.k == K::Null;
            if (cd.is<std::nullptr_t>() != null || cd.is<std::monostate>() != null) {
                violate("check", "is<nullptr_t> or is<monostate> is wrong for " + ref::show(m, 300));
            }
            named<bool>(m, typed::yes(m.k == K::Bool), "as<bool>", [&] { return cd.as<bool>(); });
            bool threw = false;
            try {
                (void)cd.as<std::monostate>();
                (void)cd.as<std::nullptr_t>();
            }
            catch (const json::exception&) {
                threw = true;
            }
            if (threw == null) {
                violate("conversion", "as<monostate> is wrong for " + ref::show(m, 300));
            }
            break;
        }
        case 14: { // get with a string as default
            json::value h = json::object { { "k", d } };
            json::value a = json::array { d, 5 };
            const std::string want = m.k == K::Str ? m.s : "default";
            if (h.get("k", "default") != want || a.get(0, std::string("default")) != want || h.get("k", std::string_view("default")) != want ||
                a.get(2, "default") != "default" || a.get("k", "default") != "default" || h.get("x", "k", "default") != "default") {
                violate("get", "get with a string as default is wrong for " + ref::show(m, 300));
            }
            break;
        }
        default: { // get with a document as default
            json::value h = json::object { { "k", d } };
            const json::value def(draw(2) ? json::value("default") : json::value());
            if (!(h.get("k", def) == d) || !(h.get("x", def) == def) || !(h.get(0, def) == def) || !(d.get("no such key", 3, def) == def)) {
                violate("get", "get with a document as default is wrong for " + ref::show(m, 300));
            }
        }
        }
        bridge::expect_value(cd, m, "document after a check or conversion");
    }
    nontrivial();
}
void run()
{
    if (chance(1, 6)) {
        note("accessors");
        return accessors();
    }
    const size_t i = draw(universe::All::size);
    note("type %zu", i);
    universe::dispatch(i);
}
} // namespace

const sim::World sim::world { "C14",
                              "each run draws a receiver type and 1-3 messages of a peer (well-formed values changed the way another version or a hostile "
                              "peer would, some meant for another type, some damaged, duplicated or reordered on the wire); every type check, conversion, "
                              "find, get, all and struct load is compared with an independent definition of conformance; non-trivial: at least one message "
                              "was sent",
                              run, true, 256 };
