#pragma once
#include "ref.hpp"

#include <type_traits>
#include <utility>

namespace p14
{
// when set, a type's entry only produces a message of this type
extern ref::RV* sender;

template <typename Y, typename T, typename = void>
struct is_struct : std::false_type
{
};
template <typename Y, typename T>
struct is_struct<Y, T, std::void_t<decltype(T::fields())>> : std::true_type
{
};
template <typename T>
const char* type_name()
{
    return __PRETTY_FUNCTION__;
}
} // namespace p14
