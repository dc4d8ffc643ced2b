// C12: typed application state survives restarts.
#include "universe.hpp"

namespace
{
using namespace sim;
using ref::RV;

enum class Wide : unsigned long long
{
    Zero = 0,
    One = 1,
    Top = 128
};
enum class Low : int
{
    Bottom = -300,
    Middle = -200,
    MEOJSON_ENUM_RANGE(Bottom, Middle)
};
enum class Far : long long
{
    A = 1000000,
    B = 1000002,
    MEOJSON_ENUM_RANGE(A, B)
};
} // namespace
namespace typed
{
template <>
struct EnumNames<Wide>
{
    static constexpr std::pair<Wide, const char*> all[] = { { Wide::Zero, "Zero" }, { Wide::One, "One" }, { Wide::Top, "Top" } };
};
template <>
struct EnumNames<Low>
{
    static constexpr std::pair<Low, const char*> all[] = { { Low::Bottom, "Bottom" }, { Low::Middle, "Middle" } };
};
template <>
struct EnumNames<Far>
{
    static constexpr std::pair<Far, const char*> all[] = { { Far::A, "A" }, { Far::B, "B" } };
};
} // namespace typed
namespace
{
// State of which a part was overwritten: an enum that may have a value that no enumerator has. Saving it is refused.
template <typename E>
void overwritten()
{
    using U = std::underlying_type_t<E>;
    for (uint64_t n = 1 + draw(4); n--;) {
        step();
        U raw = typed::Ty<U>::gen(0);
        if (draw(2)) { // a named value with some bits flipped
            raw = static_cast<U>(typed::Ty<E>::gen(0));
            for (uint64_t k = draw(3); k--;) {
                raw = static_cast<U>(raw ^ static_cast<U>(1ull << draw(sizeof(U) * 8)));
            }
        }
        const E e = static_cast<E>(raw);
        const RV name = typed::Ty<E>::rv(e);
        const bool named = name.k == ref::K::Str;
        note("value %lld: %s", (long long)raw, ref::show(name).c_str());
        fault("enum overwritten in memory", !named);
        json::value v = "before";
        const RV before = RV::str("before");
        bool threw = false;
        RV want = name;
        try {
            switch (draw(6)) {
            case 0:
                v = json::value(e);
                break;
            case 1:
                want = RV::arr();
                want.a = { name, name };
                v = std::vector<E> { e, e };
                break;
            case 2:
                v = std::optional<E>(e);
                break;
            case 3:
                want = RV::obj();
                want.o["k"] = name;
                v = std::map<std::string, E> { { "k", e } };
                break;
            case 4:
                want = RV::arr();
                want.a = { RV::num("1"), name };
                v = std::make_pair(1, e);
                break;
            default:
                if constexpr (std::is_same_v<E, app::Color>) {
                    app::Item it;
                    it.color = e;
                    want = typed::Ty<app::Item>::rv(it);
                    v = it;
                }
                else {
                    want = RV::arr();
                    want.a = { name };
                    v = std::array<E, 1> { e };
                }
            }
        }
        catch (const json::exception&) {
            threw = true;
        }
        if (threw == named) {
            violate("unnamed", std::string(threw ? "refused " : "stored ") + std::to_string(raw) + (threw ? "" : " as " + ref::show(bridge::read(v))) +
                                   ", which is " + ref::show(name));
        }
        bridge::expect_value(v, threw ? before : want, "converted state");
        if (!threw) {
            const E back = draw(2) ? v.is_string() ? v.as<E>() : e : json::value(e).template as<E>();
            if (back != e) {
                violate("value", "an enum comes back as another one");
            }
        }
    }
    nontrivial();
}
void run()
{
    if (chance(1, 12)) {
        switch (draw(6)) {
        case 0:
            return overwritten<app::Color>();
        case 1:
            return overwritten<app::Mode>();
        case 2:
            return overwritten<app::Big>();
        case 3:
            return overwritten<Wide>();
        case 4:
            return overwritten<Low>();
        default:
            return overwritten<Far>();
        }
    }
    const size_t i = sim::draw(3) ? sim::draw(universe::All::size) : sim::pick(44, 45, 46, 47);
    sim::note("type %zu", i);
    universe::dispatch(i);
}
} // namespace

const sim::World sim::world { "C12",
                              "each run draws a supported type and a history of updates of up to three state entries of it, saves (several ways to convert, "
                              "to print and to write) to two slots on a simulated disk, crashes, write errors and restarts; after each restart the entries "
                              "are read back (several ways) and compared with the last completed save; non-trivial: a state was restored",
                              run, true, 128 };
