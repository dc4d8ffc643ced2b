// Steps of the code under test: basic blocks executed, bytes handled by the C library's block functions, allocations.
#pragma once
#include "core.hpp"

namespace steps
{
extern uint64_t count; // since start()
void start(uint64_t limit); // a run that needs more than `limit` steps is a violation ("steps")
uint64_t stop();
} // namespace steps
