// Cooperative scheduler: one managed thread runs at a time; a switch can only happen before a mutex is locked,
// before a guarded static initialisation, and at the start and end of a thread.
#pragma once
#include <functional>
#include <string>
#include <vector>

struct McPoint { int chosen; unsigned enabled; bool preempt; const void* obj; };

struct McResult {
    int status = 0;                  // 0 finished, 1 deadlock
    std::vector<McPoint> points;
};

// run the bodies as threads under the given decisions (thread number at each decision point; afterwards: no preemption)
McResult mc_run(const std::vector<std::function<void()>>& bodies, const std::vector<int>& decisions);
// a decision point of the harness itself (used between operations)
void mc_yield();
