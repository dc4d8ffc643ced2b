// Deterministic thread scheduler: real threads of which exactly one runs at a time. Code built with the coverage callbacks
// can be preempted at every basic block, load and store; which thread goes on, and for how long, is drawn.
#pragma once
#include "core.hpp"

namespace sched
{
// Runs body(0..n-1, arg) as threads to completion. Bodies must not let exceptions out.
void run(int n, void (*body)(int, void*), void* arg, uint64_t step_limit);
bool active();
int self(); // thread index, -1 outside
} // namespace sched
