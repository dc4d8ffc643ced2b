// A compiler's view of the drawn enums: text of a value and value of a text, by the number of the enum.
#pragma once
#include <cstddef>
#include <optional>
#include <string>

namespace names
{
struct Table
{
    size_t size;
    // the text of the enumerator with this value in its low bits; nothing if the conversion is refused
    bool (*text)(size_t which, unsigned long long raw, char* out, size_t cap);
    bool (*value)(size_t which, const char* text, size_t n, unsigned long long* raw);
};
extern const Table gcc; // the same program built by g++
constexpr size_t CHUNKS = 4;
template <size_t C>
void entry(size_t i);
template <>
void entry<0>(size_t i);
template <>
void entry<1>(size_t i);
template <>
void entry<2>(size_t i);
template <>
void entry<3>(size_t i);
} // namespace names
