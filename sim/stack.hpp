// The stack seam: code under test runs on a stack of exactly as many bytes as the simulator grants.
#pragma once
#include "core.hpp"

#include <functional>

namespace stack
{
// Runs fn on a stack of `bytes` (rounded up to a page); needing more is a violation ("stack"). Exceptions come out as usual.
void on(size_t bytes, const std::function<void()>& fn);
// Runs fn on a large stack: for the simulator's own recursion.
void large(const std::function<void()>& fn);
} // namespace stack
