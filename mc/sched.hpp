// Controlled execution of threads: the code under test is compiled with -fsanitize=thread but
// linked against sched.cpp, so that every memory access and atomic operation of it is a call
// into a scheduler that runs one thread at a time and asks the explorer which one continues.
#pragma once
#include <cstddef>
#include <functional>
#include <vector>

namespace mcs
{
// Runs the tasks concurrently; every interleaving of their synchronising operations (atomics,
// locks, one-time initialisation) within the deviation bound of the explorer is a separate
// execution, and any unsynchronised conflict is reported (happens-before race detection), which
// makes switching at plain accesses redundant.  Exceptions of a task are rethrown at the end.
// The body must have made at least two choices before.
void parallel(std::vector<std::function<void()>> tasks);
// the choice of who starts and who follows a finished task spends deviations as well
void delayBounded(bool on);
// accesses to [p,p+n) are not conflicts (objects documented to be usable concurrently)
void ignore(const void* p, std::size_t n);
int currentTask(); // -1 outside
// a (relaxed) atomic operation on [p,p+n): may be preempted before, conflicts with plain accesses
void atomicBegin(const void* p, std::size_t n, bool write);
void atomicEnd();
}
