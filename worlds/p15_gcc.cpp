// C15: the drawn enums as g++ sees them. Everything of the library has other names here.
#include <json.hpp>

#include "names.hpp"

#include <cstring>
#include <map>

#define NAMES_ONLY
namespace typed
{
template <typename E>
struct EnumNames;
}
#include GENERATED
namespace universe
{
template <typename T, bool Exact = true>
struct Type
{
    using type = T;
};
template <typename... Ts>
struct List
{
    static constexpr size_t size = sizeof...(Ts);
};
} // namespace universe
#define LISTS
#include GENERATED

namespace
{
template <typename E>
bool text(unsigned long long raw, char* out, size_t cap)
{
    try {
        const json::value v = static_cast<E>(static_cast<std::underlying_type_t<E>>(raw));
        const std::string s = v.as_string();
        if (s.size() >= cap) {
            return false;
        }
        memcpy(out, s.c_str(), s.size() + 1);
        return true;
    }
    catch (const json::exception&) {
        return false;
    }
}
template <typename E>
bool value(const char* t, size_t n, unsigned long long* raw)
{
    const json::value v = std::string(t, n);
    const bool is = v.is<E>();
    try {
        const E e = v.as<E>();
        *raw = static_cast<unsigned long long>(static_cast<std::underlying_type_t<E>>(e));
        return is;
    }
    catch (const json::exception&) {
        *raw = is;
        return false;
    }
}
template <typename... Ts>
names::Table table(universe::List<Ts...>)
{
    static constexpr bool (*texts[])(unsigned long long, char*, size_t) = { &text<typename Ts::type>... };
    static constexpr bool (*values[])(const char*, size_t, unsigned long long*) = { &value<typename Ts::type>... };
    return { sizeof...(Ts), [](size_t i, unsigned long long raw, char* out, size_t cap) { return texts[i](raw, out, cap); },
             [](size_t i, const char* t, size_t n, unsigned long long* raw) { return values[i](t, n, raw); } };
}
} // namespace
const names::Table names::gcc = table(universe::Enums {});
