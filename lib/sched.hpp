// A stand-in for the OpenMP runtime that runs the threads of a parallel region one at a time, on stacks of their own, in
// an order chosen by the explorer, and that is told about every memory access (via the compiler's thread-sanitizer
// instrumentation, with this runtime in place of the sanitizer's).
#ifndef SCHED_HPP
#define SCHED_HPP
namespace sched {
extern int threads;              // size of the next team
extern int preemptions;          // times a thread that could go on is interrupted in an execution (dynamic schedules)
extern int (*choose)(int n);     // explorer's choice among n alternatives
extern long accesses, regions, bodies, points;
extern char race[512];           // first unordered conflicting pair of accesses since reset()
void reset();
const int MAX = 4;
}
#endif
