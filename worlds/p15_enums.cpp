// C15: values and spellings of the drawn enums.
#include "bridge.hpp"
#include "names.hpp"
#include "skew.hpp"
#include "universe.hpp"

namespace
{
using namespace sim;
using ref::K;
using ref::RV;
using typed::Conf;

size_t which; // number of the enum

// Memory is overwritten: the enum may have any value of the underlying type. Only those with a name convert to text.
template <typename E>
void overwritten()
{
    using U = std::underlying_type_t<E>;
    using Y = typed::Ty<E>;
    using N = typed::EnumNames<E>;
    for (uint64_t n = 1 + draw(4); n--;) {
        step();
        U raw = typed::Ty<U>::gen(0);
        switch (draw(4)) {
        case 0: // a value with a name, or the next one
            raw = static_cast<U>(N::all[draw(std::size(N::all))].first);
            if (!std::is_same_v<U, bool> && draw(2)) {
                raw = static_cast<U>(static_cast<unsigned long long>(raw) + draw(7) - 3);
            }
            break;
        case 1: // some of its bits flipped
            raw = static_cast<U>(N::all[draw(std::size(N::all))].first);
            for (uint64_t k = 1 + draw(2); k--;) {
                raw = static_cast<U>(static_cast<unsigned long long>(raw) ^ 1ull << draw(sizeof(U) * 8));
            }
            break;
        case 2: // an enumerator outside the range
            raw = static_cast<U>(N::outside[draw(std::size(N::outside))].first);
            break;
        default:
            break;
        }
        const E e = static_cast<E>(raw);
        const RV name = Y::rv(e);
        const bool named = name.k == K::Str;
        note("value %lld: %s", (long long)raw, ref::show(name).c_str());
        fault("enum overwritten in memory", !named);
        state(mix(mix(which, static_cast<uint64_t>(raw)), 1));
        json::value v = "before";
        RV want = name;
        bool threw = false;
        const auto list = [&](std::vector<RV> a) {
            want = RV::arr();
            want.a = std::move(a);
        };
        try {
            switch (draw(8)) {
            case 0:
                v = json::value(e);
                break;
            case 1:
                list({ name, name });
                v = std::vector<E> { e, e };
                break;
            case 2:
                v = std::optional<E>(e);
                break;
            case 3:
                want = RV::obj();
                want.o["k"] = name;
                v = std::map<std::string, E> { { "k", e } };
                break;
            case 4:
                list({ RV::num("1"), name });
                v = std::make_pair(1, e);
                break;
            case 5:
                list({ name });
                v = std::array<E, 1> { e };
                break;
            case 6: {
                list({ RV::boolean(true), name });
                json::array a;
                a.emplace_back(true);
                a.emplace_back(e);
                v = std::move(a);
                break;
            }
            default: {
                want = RV::obj();
                want.o["k"] = name;
                json::object o;
                o.emplace("k", e);
                v = std::move(o);
            }
            }
        }
        catch (const json::exception&) {
            threw = true;
        }
        if (threw == named) {
            violate("unnamed", std::string(threw ? "refused " : "converted ") + std::to_string(raw) + (threw ? "" : " to " + ref::show(bridge::read(v))) +
                                   ", which is " + ref::show(name));
        }
        bridge::expect_value(v, threw ? RV::str("before") : want, "converted enum");
        if (named && json::value(e).template as<E>() != e) {
            violate("value", "an enum comes back as another one: " + ref::show(name));
        }
        char text[400];
        const bool t = names::gcc.text(which, static_cast<unsigned long long>(raw), text, sizeof text);
        if (t != named || (t && name.s != text)) {
            violate("g++", "built by g++, " + std::to_string(raw) + (t ? std::string(" is ") + text : " is refused") + ", it is " + ref::show(name));
        }
    }
    nontrivial();
    sample("values of an enum");
}
// Names as peers spell them.
template <typename E>
void spelled()
{
    using U = std::underlying_type_t<E>;
    using Y = typed::Ty<E>;
    using N = typed::EnumNames<E>;
    for (uint64_t n = 1 + draw(4); n--;) {
        step();
        std::string s = draw(4) ? N::all[draw(std::size(N::all))].second : N::outside[draw(std::size(N::outside))].second;
        for (uint64_t k = draw(3); k--;) {
            s = skew::spelling(s);
        }
        switch (draw(12)) {
        case 0:
            s = "E::" + s;
            break;
        case 1:
            s = std::to_string(static_cast<long long>(static_cast<U>(N::all[0].first)));
            break;
        case 2:
            s = "";
            break;
        case 3: // a look-alike outside ASCII
            for (auto& c : s) {
                if (c == 'k' || c == 'K') {
                    s = s.substr(0, static_cast<size_t>(&c - &s[0])) + "\u212a" + s.substr(static_cast<size_t>(&c - &s[0]) + 1);
                    break;
                }
                if (c == 's' || c == 'S') {
                    s = s.substr(0, static_cast<size_t>(&c - &s[0])) + "\u017f" + s.substr(static_cast<size_t>(&c - &s[0]) + 1);
                    break;
                }
            }
            break;
        default:
            break;
        }
        fault("name: another spelling");
        const RV m = RV::str(s);
        const Conf c = Y::conforms(m);
        note("spelled %s: %d", show(s).c_str(), (int)c);
        state(mix(hash_str(s), which));
        const json::value v = s;
        const bool is = v.is<E>();
        std::optional<E> got;
        try {
            got = draw(2) ? v.as<E>() : static_cast<E>(v);
        }
        catch (const json::exception&) {
        }
        unsigned long long raw = 0;
        const bool g = names::gcc.value(which, s.data(), s.size(), &raw);
        if (got.has_value() != is || is != (c != Conf::No)) {
            violate("name", std::string("is() says ") + (is ? "true" : "false") + ", converting " + (got ? "succeeds" : "throws") + " for " + show(s));
        }
        if (g != is || (!g && raw)) {
            violate("g++", std::string("built by g++, the name ") + show(s) + (g ? " converts" : " is refused"));
        }
        if (c == Conf::Yes && *got != Y::from(m)) {
            violate("name", show(s) + " converts to " + ref::show(Y::rv(*got)));
        }
        if (c == Conf::Yes && raw != static_cast<unsigned long long>(static_cast<U>(*got))) {
            violate("g++", "built by g++, " + show(s) + " converts to " + std::to_string(raw));
        }
        if (c == Conf::Either && typed::lower(Y::rv(*got).s) != typed::lower(s)) {
            violate("name", show(s) + " converts to " + ref::show(Y::rv(*got)));
        }
        probe(c == Conf::Either ? "spelling of several enumerators" : is ? "spelling accepted" : "spelling refused");
    }
    nontrivial();
    sample("spellings of a name");
}
template <typename W>
struct Any
{
    static void go() { draw(2) ? spelled<typename W::type>() : overwritten<typename W::type>(); }
};
} // namespace
template <>
void names::entry<CHUNK>(size_t i)
{
    which = i;
    universe::call_chunk<Any, CHUNK, names::CHUNKS>(universe::Enums {}, i);
}
