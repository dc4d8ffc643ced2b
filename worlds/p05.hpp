// C05: interface between the world and the variants of the library (one translation unit per build configuration).
#pragma once
#include "ref.hpp"

#include <optional>

namespace p05
{
struct Variant
{
    const char* name;
    bool (*usable)();
    int n_ways; // ways >= 0 below n_ways
    const char* (*way_name)(int way);
    // Loads [p, p+n); calls gone() once the loader has returned and before the document is read.
    std::optional<ref::RV> (*load)(const char* p, size_t n, bool jsonc, int way, void (*gone)());
};
extern const Variant none17, sse2_17, sse41_17, avx2_17, avx2_20, sse2_20;
} // namespace p05
