// Simulated MPI: every rank is a coroutine of this process, so the real communication code runs unchanged under the symbolic engine.
#pragma once
#include <functional>
namespace mpisim {
// run fn(rank) on n simulated ranks; false when the ranks deadlock or their collective calls do not match.
// order: 0 ranks take turns in ascending order, 1 descending, 2 every switch is a nondeterministic choice (up to `choices` of them)
bool run(int n, const std::function<void(int)>& fn, int order = 0, int choices = 6);
const char* trouble();      // what went wrong in the last run
int         slow_tests();   // how often MPI_Test may still answer "not yet" by choice
void        set_slow_tests(int k);
int         leftover();     // messages never received in the last run
}  // namespace mpisim
