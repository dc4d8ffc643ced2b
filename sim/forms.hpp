// Conversions that start or end at json::array and json::object themselves.
#pragma once
#include "typed.hpp"

namespace forms
{
template <typename T, typename = void>
struct has_fields : std::false_type
{
};
template <typename T>
struct has_fields<T, std::void_t<decltype(T::fields())>> : std::true_type
{
};
template <typename T>
constexpr bool own = std::is_same_v<T, json::array> || std::is_same_v<T, json::object> || std::is_same_v<T, json::value>;
template <typename T>
constexpr bool listed = !own<T> && (json::_utils::is_collection<T> || json::_utils::is_fixed_array<T> || json::_utils::is_tuple_like<T>);
template <typename T>
constexpr bool mapped = !own<T> && json::_utils::is_map<T>;
template <typename T>
constexpr bool record = has_fields<T>::value;
template <typename T>
constexpr bool any = listed<T> || mapped<T> || record<T>;
template <typename T>
using Container = std::conditional_t<listed<T>, json::array, json::object>;

template <typename T>
bool holds(const json::value& v)
{
    return listed<T> ? v.is_array() : v.is_object();
}
template <typename T>
const Container<T>& part(const json::value& v)
{
    if constexpr (listed<T>) {
        return v.as_array();
    }
    else {
        return v.as_object();
    }
}
template <typename T>
Container<T>& part(json::value& v)
{
    if constexpr (listed<T>) {
        return v.as_array();
    }
    else {
        return v.as_object();
    }
}
// container -> typed object, in one of four ways
constexpr uint64_t out_ways = 4;
template <typename T>
T out(const Container<T>& c, uint64_t way)
{
    if (way % 2 == 0) {
        return static_cast<T>(c);
    }
    if constexpr (record<T>) {
        return json::value(c).template as<T>();
    }
    else {
        return c.template as<T>();
    }
}
template <typename T>
T out_moved(Container<T>&& c, uint64_t way)
{
    if (way % 2 == 0) {
        return static_cast<T>(std::move(c));
    }
    if constexpr (record<T>) {
        return json::value(std::move(c)).template as<T>();
    }
    else {
        return std::move(c).template as<T>();
    }
}
} // namespace forms
