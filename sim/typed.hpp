// Independent model of the typed layer: for every supported C++ type, how values are drawn, which document a value
// denotes, which documents conform, and which value a conforming document denotes. Nothing in here calls a conversion
// of the library; json::value / array / object occur only as field types and are read through bridge.hpp.
#pragma once
#include "bridge.hpp"

#include <algorithm>
#include <array>
#include <charconv>
#include <cmath>
#include <cstring>
#include <deque>
#include <filesystem>
#include <limits>
#include <list>
#include <memory>
#include <optional>
#include <set>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <variant>

namespace typed
{
using ref::K;
using ref::RV;
using sim::draw;

enum class Conf
{
    No,
    Yes,
    Either // the contract leaves it open (floating-point underflow to zero)
};
inline Conf operator&(Conf a, Conf b)
{
    return a == Conf::No || b == Conf::No ? Conf::No : a == Conf::Either || b == Conf::Either ? Conf::Either : Conf::Yes;
}
inline Conf yes(bool b)
{
    return b ? Conf::Yes : Conf::No;
}

template <typename T>
constexpr bool is_optional_v = false;
template <typename T>
constexpr bool is_optional_v<std::optional<T>> = true;

// Containers claim to be copyable whatever they hold.
template <typename T, typename = void>
struct Copyable : std::is_copy_constructible<T>
{
};
template <typename T>
struct Copyable<T, std::void_t<typename T::value_type, typename T::iterator>> : Copyable<typename T::value_type>
{
};
template <typename A, typename B>
struct Copyable<std::pair<A, B>> : std::bool_constant<Copyable<std::remove_const_t<A>>::value && Copyable<B>::value>
{
};
template <>
struct Copyable<std::filesystem::path> : std::true_type
{
};
template <typename T>
constexpr bool copyable = Copyable<T>::value;

template <typename T, typename = void>
struct Ty;

// ---------------------------------------------------------------- numbers
inline bool int_text(const std::string& s)
{
    size_t i = s.size() && s[0] == '-';
    if (i == s.size() || (s[i] == '0' && s.size() > i + 1)) {
        return false;
    }
    for (; i < s.size(); ++i) {
        if (s[i] < '0' || s[i] > '9') {
            return false;
        }
    }
    return true;
}
template <typename T>
std::optional<T> int_of(const std::string& s)
{
    if (!int_text(s)) {
        return std::nullopt;
    }
    const bool neg = s[0] == '-';
    if (neg && std::is_unsigned_v<T>) {
        return std::nullopt;
    }
    using U = unsigned __int128;
    U u = 0;
    const U limit = neg ? U(std::numeric_limits<T>::max()) + 1 : U(std::numeric_limits<T>::max());
    for (size_t i = neg; i < s.size(); ++i) {
        u = u * 10 + (s[i] - '0');
        if (u > limit) {
            return std::nullopt;
        }
    }
    return static_cast<T>(neg ? 0 - u : u);
}
// value and whether it is certain that it is representable: overflow -> nullopt, underflow to zero -> Either
template <typename T>
std::pair<Conf, T> float_of(const std::string& s)
{
    if (!ref::is_number_text(s)) {
        return { Conf::No, T() };
    }
    T v {};
    auto [p, ec] = std::from_chars(s.data(), s.data() + s.size(), v);
    if (ec == std::errc {} && p == s.data() + s.size()) {
        // libstdc++ reports some results that round to zero as success
        if (v == 0) {
            for (char c : s) {
                if (c == 'e' || c == 'E') {
                    break;
                }
                if (c >= '1' && c <= '9') {
                    return { Conf::Either, v };
                }
            }
        }
        return { Conf::Yes, v };
    }
    // out of range: too large, or too small?
    bool small = false;
    auto e = s.find_first_of("eE");
    long exp = 0;
    std::string mant = s.substr(0, e);
    if (e != s.npos) {
        errno = 0;
        exp = strtol(s.c_str() + e + 1, nullptr, 10);
        exp = std::clamp(exp, -1000000000l, 1000000000l);
    }
    // position of the first significant digit relative to the point
    auto dot = mant.find('.');
    std::string ip = mant.substr(mant[0] == '-', dot == mant.npos ? mant.npos : dot - (mant[0] == '-'));
    std::string fp = dot == mant.npos ? "" : mant.substr(dot + 1);
    long lead;
    auto nz = ip.find_first_not_of('0');
    if (nz != ip.npos) {
        lead = static_cast<long>(ip.size() - nz);
    }
    else {
        auto fz = fp.find_first_not_of('0');
        if (fz == fp.npos) {
            return { Conf::Yes, T(mant[0] == '-' ? -0.0 : 0.0) };
        }
        lead = -static_cast<long>(fz);
    }
    small = lead + exp < 0;
    return { small ? Conf::Either : Conf::No, T() };
}
template <typename T>
struct Ty<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>>
{
    static T gen(int)
    {
        switch (draw(6)) {
        case 0:
            return static_cast<T>(draw(10));
        case 1:
            return std::numeric_limits<T>::max() - static_cast<T>(draw(3));
        case 2:
            return std::numeric_limits<T>::min() + static_cast<T>(draw(3));
        case 3:
            return static_cast<T>(T(1) << draw(sizeof(T) * 8 - 1));
        case 4:
            return static_cast<T>(0 - draw(1000));
        default:
            return static_cast<T>(draw(~0ull));
        }
    }
    static RV rv(const T& v)
    {
        char buf[32];
        if constexpr (std::is_signed_v<T>) {
            snprintf(buf, sizeof buf, "%lld", static_cast<long long>(v));
        }
        else {
            snprintf(buf, sizeof buf, "%llu", static_cast<unsigned long long>(v));
        }
        return RV::num(buf);
    }
    static Conf conforms(const RV& d) { return yes(d.k == K::Num && int_of<T>(d.s)); }
    static T from(const RV& d) { return *int_of<T>(d.s); }
    static bool eq(const T& a, const T& b) { return a == b; }
};
template <>
struct Ty<bool>
{
    static bool gen(int) { return draw(2); }
    static RV rv(const bool& v) { return RV::boolean(v); }
    static Conf conforms(const RV& d) { return yes(d.k == K::Bool); }
    static bool from(const RV& d) { return d.s == "true"; }
    static bool eq(bool a, bool b) { return a == b; }
};
template <typename T>
struct Ty<T, std::enable_if_t<std::is_floating_point_v<T>>>
{
    using L = std::numeric_limits<T>;
    static T gen(int)
    {
        T v;
        switch (draw(9)) {
        case 0:
            v = static_cast<T>(draw(10));
            break;
        case 1:
            v = static_cast<T>(draw(1000000)) / 64;
            break;
        case 2:
            v = T(1) / T(draw(1000) + 3);
            break;
#ifdef MEOJSON_KEEP_FLOATING_PRECISION
        case 3:
            v = L::max() / T(1 + draw(3));
            break;
        case 4:
            v = L::min() * T(1 + draw(5));
            break;
        case 5:
            v = L::denorm_min() * T(1 + draw(1000));
            break;
        case 6:
            v = T(1) + L::epsilon() * T(draw(9));
            break;
        case 7:
            v = std::ldexp(T(1) + T(draw(1u << 30)) / T(1u << 30), static_cast<int>(draw(2 * L::max_exponent - 4)) - L::max_exponent + 3);
            break;
#endif
        default:
            v = static_cast<T>(static_cast<int64_t>(draw(2000000001)) - 1000000000) / 1000;
        }
        return draw(4) == 3 ? -v : v;
    }
    static RV rv(const T& v)
    {
        char buf[6000];
#ifdef MEOJSON_KEEP_FLOATING_PRECISION
        snprintf(buf, sizeof buf, "%.*Lg", L::max_digits10, static_cast<long double>(v));
#else
        snprintf(buf, sizeof buf, "%Lf", static_cast<long double>(v));
#endif
        return RV::num(buf);
    }
    static Conf conforms(const RV& d) { return d.k != K::Num ? Conf::No : float_of<T>(d.s).first; }
    static T from(const RV& d) { return float_of<T>(d.s).second; }
    static bool eq(const T& a, const T& b) { return a == b && std::signbit(a) == std::signbit(b); }
};

// ---------------------------------------------------------------- strings, null, enums
template <>
struct Ty<std::string>
{
    static std::string gen(int)
    {
        ref::Gen g;
        return ref::gen_string(g);
    }
    static RV rv(const std::string& v) { return RV::str(v); }
    static Conf conforms(const RV& d) { return yes(d.k == K::Str); }
    static std::string from(const RV& d) { return d.s; }
    static bool eq(const std::string& a, const std::string& b) { return a == b; }
};
template <>
struct Ty<std::monostate>
{
    static std::monostate gen(int) { return {}; }
    static RV rv(const std::monostate&) { return RV::null(); }
    static Conf conforms(const RV& d) { return yes(d.k == K::Null); }
    static std::monostate from(const RV&) { return {}; }
    static bool eq(const std::monostate&, const std::monostate&) { return true; }
};
template <>
struct Ty<std::filesystem::path>
{
    static std::filesystem::path gen(int)
    {
        ref::Gen g;
        std::string s;
        for (size_t i = 0, n = draw(4); i < n; ++i) {
            s += ref::gen_key(g) + "/";
        }
        return std::filesystem::path(s + ref::gen_key(g));
    }
    static RV rv(const std::filesystem::path& v) { return RV::str(v.native()); }
    static Conf conforms(const RV& d) { return yes(d.k == K::Str); }
    static std::filesystem::path from(const RV& d) { return std::filesystem::path(d.s); }
    static bool eq(const std::filesystem::path& a, const std::filesystem::path& b) { return a.native() == b.native(); }
};
inline std::string lower(std::string s)
{
    for (auto& c : s) {
        if (c >= 'A' && c <= 'Z') {
            c = static_cast<char>(c - 'A' + 'a');
        }
    }
    return s;
}
template <typename E>
struct EnumNames; // { static constexpr std::pair<E, const char*> all[] }
template <typename T>
struct Ty<T, std::enable_if_t<std::is_enum_v<T>>>
{
    using U = std::underlying_type_t<T>;
    static T gen(int) { return EnumNames<T>::all[draw(std::size(EnumNames<T>::all))].first; }
    static RV rv(const T& v)
    {
#ifdef MEOJSON_ENUM_AS_NUMBER
        return Ty<U>::rv(static_cast<U>(v));
#endif
        for (auto& [e, n] : EnumNames<T>::all) {
            if (e == v) {
                return RV::str(n);
            }
        }
        return RV::null();
    }
    // the enumerator of this name; failing that, one whose name differs only in case
    static std::optional<T> find(const std::string& s, size_t* matches = nullptr)
    {
        std::optional<T> r;
        size_t n = 0;
        for (auto& [e, name] : EnumNames<T>::all) {
            if (s == name) {
                r = e;
                n = 1;
                break;
            }
            if (lower(name) == lower(s)) {
                r = e;
                ++n;
            }
        }
        if (matches) {
            *matches = n;
        }
        return r;
    }
    static Conf conforms(const RV& d)
    {
        if (d.k != K::Str) {
            return Ty<U>::conforms(d);
        }
        size_t n = 0;
        find(d.s, &n);
        return n == 0 ? Conf::No : n == 1 ? Conf::Yes : Conf::Either; // which of several is meant is left open
    }
    static T from(const RV& d) { return d.k == K::Str ? *find(d.s) : static_cast<T>(Ty<U>::from(d)); }
    static bool eq(const T& a, const T& b) { return a == b; }
};

// ---------------------------------------------------------------- nullable
template <typename T>
struct Ty<std::optional<T>>
{
    using V = std::optional<T>;
    static V gen(int d) { return draw(3) ? V(Ty<T>::gen(d)) : V(); }
    static RV rv(const V& v) { return v ? Ty<T>::rv(*v) : RV::null(); }
    static Conf conforms(const RV& d) { return d.k == K::Null ? Conf::Yes : Ty<T>::conforms(d); }
    static V from(const RV& d) { return d.k == K::Null ? V() : V(Ty<T>::from(d)); }
    static bool eq(const V& a, const V& b) { return !a || !b ? !a && !b : Ty<T>::eq(*a, *b); }
};
template <typename P, typename T>
struct TyPtr
{
    static P gen(int d) { return draw(3) ? P(new T(Ty<T>::gen(d))) : P(); }
    static RV rv(const P& v) { return v ? Ty<T>::rv(*v) : RV::null(); }
    static Conf conforms(const RV& d) { return d.k == K::Null ? Conf::Yes : Ty<T>::conforms(d); }
    static P from(const RV& d) { return d.k == K::Null ? P() : P(new T(Ty<T>::from(d))); }
    static bool eq(const P& a, const P& b) { return !a || !b ? !a && !b : Ty<T>::eq(*a, *b); }
};
template <typename T>
struct Ty<std::shared_ptr<T>> : TyPtr<std::shared_ptr<T>, T>
{
};
template <typename T>
struct Ty<std::unique_ptr<T>> : TyPtr<std::unique_ptr<T>, T>
{
};

// ---------------------------------------------------------------- sequences and sets
// How many elements: few, now and then more than any small buffer or bucket count.
inline size_t count()
{
    return ref::unusual_sizes && sim::chance(1, 40) ? sim::range(4, 40) : sim::draw(4);
}
template <typename C, typename T>
struct TySeq
{
    static constexpr bool is_set = !json::_utils::has_emplace_back<C>::value;
    static C gen(int d)
    {
        C c;
        size_t n = d <= 0 ? draw(2) : count();
        for (size_t i = 0; i < n; ++i) {
            if constexpr (is_set) {
                c.insert(Ty<T>::gen(d - 1));
            }
            else {
                c.push_back(Ty<T>::gen(d - 1));
            }
        }
        return c;
    }
    static RV rv(const C& c)
    {
        RV r = RV::arr();
        for (const auto& x : c) {
            r.a.push_back(Ty<T>::rv(x));
        }
        return r;
    }
    static Conf conforms(const RV& d)
    {
        Conf c = yes(d.k == K::Arr);
        for (auto& x : d.a) {
            c = c & Ty<T>::conforms(x);
        }
        return c;
    }
    static C from(const RV& d)
    {
        C c;
        for (auto& x : d.a) {
            if constexpr (is_set) {
                c.insert(Ty<T>::from(x));
            }
            else {
                c.push_back(Ty<T>::from(x));
            }
        }
        return c;
    }
    static bool eq(const C& a, const C& b)
    {
        if (a.size() != b.size()) {
            return false;
        }
        if constexpr (is_set) {
            return a == b;
        }
        else {
            auto i = b.begin();
            for (auto it = a.begin(); it != a.end(); ++it, ++i) {
                if (!Ty<T>::eq(*it, *i)) {
                    return false;
                }
            }
            return true;
        }
    }
};
template <typename T>
struct Ty<std::vector<T>> : TySeq<std::vector<T>, T>
{
};
template <typename T>
struct Ty<std::list<T>> : TySeq<std::list<T>, T>
{
};
template <typename T>
struct Ty<std::deque<T>> : TySeq<std::deque<T>, T>
{
};
template <typename T>
struct Ty<std::set<T>> : TySeq<std::set<T>, T>
{
};
template <typename T>
struct Ty<std::multiset<T>> : TySeq<std::multiset<T>, T>
{
};
template <typename T>
struct Ty<std::unordered_multiset<T>> : TySeq<std::unordered_multiset<T>, T>
{
};
template <typename T>
struct Ty<std::unordered_set<T>> : TySeq<std::unordered_set<T>, T>
{
};

// ---------------------------------------------------------------- fixed size
template <typename T, size_t N>
struct Ty<std::array<T, N>>
{
    using V = std::array<T, N>;
    static V gen(int d)
    {
        V v {};
        for (auto& x : v) {
            x = Ty<T>::gen(d - 1);
        }
        return v;
    }
    static RV rv(const V& v)
    {
        RV r = RV::arr();
        for (auto& x : v) {
            r.a.push_back(Ty<T>::rv(x));
        }
        return r;
    }
    static Conf conforms(const RV& d)
    {
        Conf c = yes(d.k == K::Arr && d.a.size() == N);
        for (auto& x : d.a) {
            c = c & Ty<T>::conforms(x);
        }
        return c;
    }
    static V from(const RV& d)
    {
        V v {};
        for (size_t i = 0; i < N; ++i) {
            v[i] = Ty<T>::from(d.a[i]);
        }
        return v;
    }
    static bool eq(const V& a, const V& b)
    {
        for (size_t i = 0; i < N; ++i) {
            if (!Ty<T>::eq(a[i], b[i])) {
                return false;
            }
        }
        return true;
    }
};
template <typename V, typename... Ts>
struct TyTuple
{
    using Idx = std::make_index_sequence<sizeof...(Ts)>;
    template <size_t... I>
    static V gen_(int d, std::index_sequence<I...>)
    {
        return V { Ty<Ts>::gen(d - 1)... };
    }
    static V gen(int d) { return gen_(d, Idx()); }
    template <size_t... I>
    static RV rv_(const V& v, std::index_sequence<I...>)
    {
        RV r = RV::arr();
        (r.a.push_back(Ty<Ts>::rv(std::get<I>(v))), ...);
        return r;
    }
    static RV rv(const V& v) { return rv_(v, Idx()); }
    template <size_t... I>
    static Conf conf_(const RV& d, std::index_sequence<I...>)
    {
        Conf c = Conf::Yes;
        ((c = c & Ty<Ts>::conforms(d.a[I])), ...);
        return c;
    }
    static Conf conforms(const RV& d) { return d.k == K::Arr && d.a.size() == sizeof...(Ts) ? conf_(d, Idx()) : Conf::No; }
    template <size_t... I>
    static V from_(const RV& d, std::index_sequence<I...>)
    {
        return V { Ty<Ts>::from(d.a[I])... };
    }
    static V from(const RV& d) { return from_(d, Idx()); }
    template <size_t... I>
    static bool eq_(const V& a, const V& b, std::index_sequence<I...>)
    {
        return (Ty<Ts>::eq(std::get<I>(a), std::get<I>(b)) && ...);
    }
    static bool eq(const V& a, const V& b) { return eq_(a, b, Idx()); }
};
template <typename A, typename B>
struct Ty<std::pair<A, B>> : TyTuple<std::pair<A, B>, A, B>
{
};
template <typename... Ts>
struct Ty<std::tuple<Ts...>> : TyTuple<std::tuple<Ts...>, Ts...>
{
};

// ---------------------------------------------------------------- maps
template <typename M, typename T>
struct TyMap
{
    static M gen(int d)
    {
        M m;
        size_t n = d <= 0 ? draw(2) : count();
        ref::Gen g;
        for (size_t i = 0; i < n; ++i) {
            m.emplace(ref::gen_key(g), Ty<T>::gen(d - 1));
        }
        return m;
    }
    static RV rv(const M& m)
    {
        RV r = RV::obj();
        for (auto& [k, x] : m) {
            r.o.emplace(k, Ty<T>::rv(x));
        }
        return r;
    }
    static Conf conforms(const RV& d)
    {
        Conf c = yes(d.k == K::Obj);
        for (auto& [k, x] : d.o) {
            c = c & Ty<T>::conforms(x);
        }
        return c;
    }
    static M from(const RV& d)
    {
        M m;
        for (auto& [k, x] : d.o) {
            m.emplace(k, Ty<T>::from(x));
        }
        return m;
    }
    static bool eq(const M& a, const M& b)
    {
        if (a.size() != b.size()) {
            return false;
        }
        for (auto& [k, x] : a) {
            auto it = b.find(k);
            if (it == b.end() || !Ty<T>::eq(x, it->second)) {
                return false;
            }
        }
        return true;
    }
};
template <typename T>
struct Ty<std::map<std::string, T>> : TyMap<std::map<std::string, T>, T>
{
};
template <typename T>
struct Ty<std::unordered_map<std::string, T>> : TyMap<std::unordered_map<std::string, T>, T>
{
};

// ---------------------------------------------------------------- variants
template <typename... Ts>
struct Ty<std::variant<Ts...>>
{
    using V = std::variant<Ts...>;
    template <size_t I>
    static V gen_(size_t which, int d)
    {
        if constexpr (I + 1 < sizeof...(Ts)) {
            if (which != I) {
                return gen_<I + 1>(which, d);
            }
        }
        return V(std::in_place_index<I>, Ty<std::variant_alternative_t<I, V>>::gen(d - 1));
    }
    static V gen(int d) { return gen_<0>(draw(sizeof...(Ts)), d); }
    static RV rv(const V& v)
    {
        return std::visit([](const auto& x) { return Ty<std::decay_t<decltype(x)>>::rv(x); }, v);
    }
    static Conf conforms(const RV& d)
    {
        const Conf cs[] = { Ty<Ts>::conforms(d)... };
        Conf any = Conf::No;
        for (Conf c : cs) {
            if (c == Conf::Either) {
                any = Conf::Either; // which alternative is taken is open, too
                for (Conf c2 : cs) {
                    if (c2 == Conf::Yes) {
                        return Conf::Either;
                    }
                }
                return any;
            }
            if (c == Conf::Yes) {
                return Conf::Yes;
            }
        }
        return any;
    }
    template <size_t I>
    static V from_(const RV& d)
    {
        if constexpr (I + 1 < sizeof...(Ts)) {
            if (Ty<std::variant_alternative_t<I, V>>::conforms(d) != Conf::Yes) {
                return from_<I + 1>(d);
            }
        }
        return V(std::in_place_index<I>, Ty<std::variant_alternative_t<I, V>>::from(d));
    }
    static V from(const RV& d) { return from_<0>(d); }
    template <size_t I>
    static bool eq_(const V& a, const V& b)
    {
        if (a.index() == I) {
            return Ty<std::variant_alternative_t<I, V>>::eq(std::get<I>(a), std::get<I>(b));
        }
        if constexpr (I + 1 < sizeof...(Ts)) {
            return eq_<I + 1>(a, b);
        }
        return false;
    }
    static bool eq(const V& a, const V& b) { return a.index() == b.index() && eq_<0>(a, b); }
};

// ---------------------------------------------------------------- documents as fields
inline ref::Gen small_doc()
{
    ref::Gen g;
    g.max_nodes = 6;
    g.max_depth = 2;
    return g;
}
template <>
struct Ty<json::value>
{
    static json::value gen(int) { return bridge::plain(ref::gen(small_doc(), false)); }
    static RV rv(const json::value& v) { return bridge::read(v); }
    static Conf conforms(const RV&) { return Conf::Yes; }
    static json::value from(const RV& d) { return bridge::plain(d); }
    static bool eq(const json::value& a, const json::value& b) { return rv(a) == rv(b); }
};
template <>
struct Ty<json::array>
{
    static json::array gen(int)
    {
        RV d = ref::gen(small_doc());
        if (d.k != K::Arr) {
            RV r = RV::arr();
            r.a.push_back(std::move(d));
            d = std::move(r);
        }
        return from(d);
    }
    static RV rv(const json::array& v) { return bridge::read(v); }
    static Conf conforms(const RV& d) { return yes(d.k == K::Arr); }
    static json::array from(const RV& d)
    {
        json::array a;
        for (auto& x : d.a) {
            a.emplace_back(bridge::plain(x));
        }
        return a;
    }
    static bool eq(const json::array& a, const json::array& b) { return rv(a) == rv(b); }
};
template <>
struct Ty<json::object>
{
    static json::object gen(int)
    {
        RV d = ref::gen(small_doc());
        if (d.k != K::Obj) {
            RV r = RV::obj();
            r.o.emplace("d", std::move(d));
            d = std::move(r);
        }
        return from(d);
    }
    static RV rv(const json::object& v) { return bridge::read(v); }
    static Conf conforms(const RV& d) { return yes(d.k == K::Obj); }
    static json::object from(const RV& d)
    {
        json::object o;
        for (auto& [k, x] : d.o) {
            o.emplace(k, bridge::plain(x));
        }
        return o;
    }
    static bool eq(const json::object& a, const json::object& b) { return rv(a) == rv(b); }
};

// ---------------------------------------------------------------- structs (MEO_JSONIZATION)
template <typename S, typename T>
struct Field
{
    const char* key;
    T S::*ptr;
    bool opt;
};
template <typename S, typename T>
Field<S, T> field(const char* key, T S::*ptr, bool opt = false)
{
    return { key, ptr, opt };
}
// S has: static auto fields() -> std::tuple<Field...>
template <typename S>
struct TyStruct
{
    template <typename F>
    static void each(F&& f)
    {
        std::apply([&](const auto&... x) { (f(x), ...); }, S::fields());
    }
    static S gen(int d)
    {
        S s {};
        each([&](const auto& f) {
            using T = std::decay_t<decltype(s.*(f.ptr))>;
            s.*(f.ptr) = Ty<T>::gen(d - 1);
        });
        return s;
    }
    static RV rv(const S& s)
    {
        RV r = RV::obj();
        each([&](const auto& f) {
            using T = std::decay_t<decltype(s.*(f.ptr))>;
            r.o[f.key] = Ty<T>::rv(s.*(f.ptr));
        });
        return r;
    }
    // the key of the first field that does not conform; nullptr if all do
    static const char* offending(const RV& d, bool* open = nullptr)
    {
        const char* bad = nullptr;
        S s {};
        each([&](const auto& f) {
            using T = std::decay_t<decltype(s.*(f.ptr))>;
            if (bad) {
                return;
            }
            auto it = d.o.find(f.key);
            if (it == d.o.end()) {
                if (!f.opt) {
                    bad = f.key;
                }
                return;
            }
            Conf c = Ty<T>::conforms(it->second);
            if (c == Conf::No) {
                bad = f.key;
            }
            else if (c == Conf::Either && open) {
                *open = true;
            }
        });
        return bad;
    }
    static Conf conforms(const RV& d)
    {
        if (d.k != K::Obj) {
            // nothing is missing from a struct whose fields are all optional: the contract leaves other kinds open
            return offending(RV::obj()) ? Conf::No : Conf::Either;
        }
        bool open = false;
        return offending(d, &open) ? Conf::No : open ? Conf::Either : Conf::Yes;
    }
    static void into(const RV& d, S& s)
    {
        each([&](const auto& f) {
            using T = std::decay_t<decltype(s.*(f.ptr))>;
            auto it = d.o.find(f.key);
            if (it != d.o.end()) {
                s.*(f.ptr) = Ty<T>::from(it->second);
            }
        });
    }
    static S from(const RV& d)
    {
        S s {};
        into(d, s);
        return s;
    }
    static bool eq(const S& a, const S& b)
    {
        bool r = true;
        each([&](const auto& f) {
            using T = std::decay_t<decltype(a.*(f.ptr))>;
            r = r && Ty<T>::eq(a.*(f.ptr), b.*(f.ptr));
        });
        return r;
    }
};
template <typename S>
struct Ty<S, std::void_t<decltype(S::fields())>> : TyStruct<S>
{
};

// Documents equal up to the text of floating-point numbers.
inline bool same_doc(const RV& a, const RV& b)
{
    if (a.k != b.k || a.a.size() != b.a.size() || a.o.size() != b.o.size()) {
        return false;
    }
    if (a.k == K::Num && a.s != b.s) {
        auto x = float_of<long double>(a.s), y = float_of<long double>(b.s);
        return x.first == Conf::Yes && y.first == Conf::Yes && x.second == y.second;
    }
    if (a.k != K::Num && a.s != b.s) {
        return false;
    }
    for (size_t i = 0; i < a.a.size(); ++i) {
        if (!same_doc(a.a[i], b.a[i])) {
            return false;
        }
    }
    for (auto i = a.o.begin(), j = b.o.begin(); i != a.o.end(); ++i, ++j) {
        if (i->first != j->first || !same_doc(i->second, j->second)) {
            return false;
        }
    }
    return true;
}
} // namespace typed
