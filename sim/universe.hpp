// The types of the typed worlds: an application's enums and structs, and a list of supported types.
#pragma once
#include "typed.hpp"

#ifdef GENERATED // types drawn by generate.py take the place of these
#include GENERATED
#else
namespace app
{
enum class Color
{
    Red = 1,
    Green = 2,
    Blue = 4
};
enum class Mode : long long
{
    off = 0,
    on_demand = 1,
    ALWAYS = 100,
    Negative = -5,
    x1 = -128,
    last_ = 127
};
enum class Big : unsigned
{
    Low = 300,
    Mid = 305,
    High = 310,
    MEOJSON_ENUM_RANGE(Low, High)
};

struct Inner
{
    int id = 3;
    std::string name = "unnamed";
    std::optional<double> weight;
    MEO_JSONIZATION(id, name, MEO_OPT weight);
    static auto fields()
    {
        using typed::field;
        return std::make_tuple(field("id", &Inner::id), field("name", &Inner::name), field("weight", &Inner::weight, true));
    }
};
struct Item
{
    long long n = -1;
    bool flag = true;
    Color color = Color::Green;
    std::vector<std::string> tags { "initial" };
    std::shared_ptr<Inner> owner;
    MEO_JSONIZATION(MEO_KEY("the number") n, flag, MEO_OPT color, MEO_OPT MEO_KEY("Tags") tags, owner);
    static auto fields()
    {
        using typed::field;
        return std::make_tuple(field("the number", &Item::n), field("flag", &Item::flag), field("color", &Item::color, true),
                               field("Tags", &Item::tags, true), field("owner", &Item::owner));
    }
};
struct Prefs // nothing is required
{
    int volume = 11;
    std::optional<std::string> nick = "nobody";
    std::map<std::string, bool> switches { { "a", true } };
    MEO_JSONIZATION(MEO_OPT volume, MEO_KEY("") MEO_OPT nick, MEO_OPT switches);
    static auto fields()
    {
        using typed::field;
        return std::make_tuple(field("volume", &Prefs::volume, true), field("", &Prefs::nick, true), field("switches", &Prefs::switches, true));
    }
};
struct State // everything at once
{
    int i = 0;
    unsigned u = 1;
    long l = 2;
    unsigned long ul = 3;
    long long ll = 4;
    unsigned long long ull = 5;
    bool b = true;
    float f = 0.5f;
    double d = 0.25;
    long double ld = 0.125L;
    std::string s = "s";
    Color color = Color::Red;
    Mode mode = Mode::ALWAYS;
    Big big = Big::Mid;
    std::optional<int> oi;
    std::unique_ptr<Inner> up;
    std::vector<Inner> inners;
    std::list<std::vector<int>> lists;
    std::set<std::string> names;
    std::unordered_set<int> ids;
    std::array<int, 3> arr { 1, 2, 3 };
    std::pair<std::string, int> pr;
    std::tuple<int, std::string, bool> tup;
    std::map<std::string, Item> items;
    std::unordered_map<std::string, std::optional<std::string>> texts;
    std::variant<std::monostate, int, std::string, std::vector<std::string>> var;
    Prefs prefs;
    json::value extra;
#ifdef MEOJSON_FS_PATH_EXTENSION
    std::filesystem::path where = "/tmp/x";
    MEO_JSONIZATION(i, u, l, ul, ll, ull, b, f, d, ld, s, color, mode, big, MEO_OPT oi, up, inners, lists, names, ids, arr, MEO_KEY("pair") pr, tup,
                    items, MEO_OPT texts, var, MEO_OPT prefs, MEO_OPT extra, MEO_KEY("the path") where);
#else
    MEO_JSONIZATION(i, u, l, ul, ll, ull, b, f, d, ld, s, color, mode, big, MEO_OPT oi, up, inners, lists, names, ids, arr, MEO_KEY("pair") pr, tup,
                    items, MEO_OPT texts, var, MEO_OPT prefs, MEO_OPT extra);
#endif
    static auto fields()
    {
        using typed::field;
        using S = State;
        return std::make_tuple(field("i", &S::i), field("u", &S::u), field("l", &S::l), field("ul", &S::ul), field("ll", &S::ll), field("ull", &S::ull),
                               field("b", &S::b), field("f", &S::f), field("d", &S::d), field("ld", &S::ld), field("s", &S::s),
                               field("color", &S::color), field("mode", &S::mode), field("big", &S::big), field("oi", &S::oi, true),
                               field("up", &S::up), field("inners", &S::inners), field("lists", &S::lists), field("names", &S::names),
                               field("ids", &S::ids), field("arr", &S::arr), field("pair", &S::pr), field("tup", &S::tup),
                               field("items", &S::items), field("texts", &S::texts, true), field("var", &S::var), field("prefs", &S::prefs, true),
                               field("extra", &S::extra, true)
#ifdef MEOJSON_FS_PATH_EXTENSION
                                   ,
                               field("the path", &S::where)
#endif
        );
    }
};
} // namespace app

namespace typed
{
template <>
struct EnumNames<app::Color>
{
    static constexpr std::pair<app::Color, const char*> all[] = { { app::Color::Red, "Red" }, { app::Color::Green, "Green" }, { app::Color::Blue, "Blue" } };
};
template <>
struct EnumNames<app::Mode>
{
    static constexpr std::pair<app::Mode, const char*> all[] = { { app::Mode::off, "off" },           { app::Mode::on_demand, "on_demand" },
                                                                 { app::Mode::ALWAYS, "ALWAYS" },     { app::Mode::Negative, "Negative" },
                                                                 { app::Mode::x1, "x1" },             { app::Mode::last_, "last_" } };
};
template <>
struct EnumNames<app::Big>
{
    static constexpr std::pair<app::Big, const char*> all[] = { { app::Big::Low, "Low" }, { app::Big::Mid, "Mid" }, { app::Big::High, "High" } };
};
} // namespace typed
#endif

namespace universe
{
template <typename T, bool Exact = true>
struct Type
{
    using type = T;
    static constexpr bool exact = Exact; // a value comes back as itself (no ambiguous alternatives)
};
template <typename... Ts>
struct List
{
    static constexpr size_t size = sizeof...(Ts);
};
} // namespace universe

#ifdef GENERATED
#define LISTS
#include GENERATED
#undef LISTS
#else
namespace universe
{
using namespace app;
using All = List<
    Type<int>, Type<unsigned>, Type<long>, Type<unsigned long>, Type<long long>, Type<unsigned long long>, Type<bool>, Type<double>, Type<float>,
    Type<long double>, Type<std::string>, Type<Color>, Type<Mode>, Type<Big>, Type<std::optional<int>>, Type<std::optional<std::string>>,
    Type<std::optional<Inner>>, Type<std::shared_ptr<std::string>>, Type<std::unique_ptr<std::vector<int>>>, Type<std::shared_ptr<Inner>>,
    Type<std::vector<int>>, Type<std::vector<std::string>>, Type<std::list<double>>, Type<std::deque<bool>>, Type<std::set<int>>,
    Type<std::set<std::string>>, Type<std::unordered_set<std::string>>, Type<std::multiset<int>>, Type<std::array<int, 3>>,
    Type<std::array<std::string, 2>>, Type<std::array<std::vector<int>, 2>>, Type<std::pair<int, std::string>>,
    Type<std::tuple<int, std::string, bool>>, Type<std::tuple<Color, std::optional<int>, std::vector<double>>>, Type<std::map<std::string, int>>,
    Type<std::map<std::string, std::vector<Inner>>>, Type<std::unordered_map<std::string, std::string>>,
    Type<std::unordered_map<std::string, std::optional<double>>>, Type<std::variant<std::monostate, int, std::string>>,
    Type<std::variant<bool, std::vector<int>, Inner>, false>, Type<std::variant<int, double, Color, std::string>, false>, Type<json::value>,
    Type<json::array>, Type<json::object>, Type<Inner>, Type<Item>, Type<Prefs>, Type<State>, Type<std::vector<Item>>, Type<std::map<std::string, Item>>,
    Type<std::vector<std::variant<int, std::string, std::vector<std::string>>>>, Type<std::pair<Inner, std::optional<Inner>>>,
    Type<std::vector<std::unique_ptr<int>>>, Type<std::list<std::map<std::string, std::deque<int>>>>, Type<std::vector<std::shared_ptr<Inner>>>,
    Type<std::vector<std::tuple<std::string, double>>>, Type<std::array<Inner, 1>>, Type<std::vector<Mode>>, Type<std::set<Color>>,
    Type<std::map<std::string, std::variant<std::monostate, bool, double, std::string>>>, Type<std::multiset<std::string>>,
    Type<std::unordered_multiset<int>>, Type<std::vector<json::object>>, Type<std::shared_ptr<std::vector<std::optional<int>>>>,
    Type<std::list<Prefs>>, Type<std::map<std::string, Big>>, Type<std::vector<std::array<std::pair<int, bool>, 2>>>,
    Type<std::map<std::string, std::map<std::string, std::set<long long>>>>
#ifdef MEOJSON_FS_PATH_EXTENSION
    ,
    Type<std::filesystem::path>, Type<std::vector<std::filesystem::path>>
#endif
    >;
} // namespace universe
#endif

namespace universe
{
// Calls F<Type<T,E>>::go() for the i-th type.
template <template <typename> class F, typename... Ts>
void call(List<Ts...>, size_t i)
{
    using Fn = void (*)();
    static constexpr Fn table[] = { &F<Ts>::go... };
    table[i]();
}
} // namespace universe

// The list is instantiated in several translation units that the build compiles in parallel: a unit built with -DCHUNK=c
// defines entry<c> for the types whose index is c modulo CHUNKS.
namespace universe
{
constexpr size_t CHUNKS = 8;
template <size_t C>
void entry(size_t i);
template <>
void entry<0>(size_t i);
template <>
void entry<1>(size_t i);
template <>
void entry<2>(size_t i);
template <>
void entry<3>(size_t i);
template <>
void entry<4>(size_t i);
template <>
void entry<5>(size_t i);
template <>
void entry<6>(size_t i);
template <>
void entry<7>(size_t i);
template <template <typename> class F, size_t C, size_t N, typename... Ts, size_t... I>
void call_chunk_(List<Ts...>, std::index_sequence<I...>, size_t i)
{
    (void)((I == i ? (
                         [] {
                             if constexpr (I % N == C) {
                                 F<Ts>::go();
                             }
                         }(),
                         true)
                   : false)
           || ...);
}
template <template <typename> class F, size_t C, size_t N = CHUNKS, typename... Ts>
void call_chunk(List<Ts...> l, size_t i)
{
    call_chunk_<F, C, N>(l, std::make_index_sequence<sizeof...(Ts)> {}, i);
}
inline void dispatch(size_t i)
{
    switch (i % CHUNKS) {
    case 0:
        return entry<0>(i);
    case 1:
        return entry<1>(i);
    case 2:
        return entry<2>(i);
    case 3:
        return entry<3>(i);
    case 4:
        return entry<4>(i);
    case 5:
        return entry<5>(i);
    case 6:
        return entry<6>(i);
    default:
        return entry<7>(i);
    }
}
} // namespace universe
