// Deterministic scheduler: one managed thread runs at a time, every
// synchronisation call, sleep, clock read and (in instrumented builds) memory
// access of the code under test is a point at which another may be picked.
// Time is virtual: it moves when every thread waits.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sched {

struct Params {
  uint64_t seed = 1;
  int mode = 0;           // 0 random walk, 1 priorities with change points, 2 run until blocked
  int gap = 0;            // mean number of instrumented accesses between preemptions, 0 none
  int stay = 50;          // mode 0: chance (of 100) to keep running at a sync point
  int changes = 3;        // mode 1: number of priority changes
  int horizon = 2000;     // mode 1: change points lie in the first so many points
  int spurious = 0;       // per mille of condition waits that may wake by themselves
  int early = 0;          // per mille of points at which a pending timeout may fire first
  long maxSteps = 5000000;
  long maxVirtualMs = 3600 * 1000;
};

void start(const Params& p);  // the calling thread becomes managed
bool on();
void yield();                 // a scheduling point
// waits until pred() or the deadline (virtual ns, -1 none); false: timed out
bool waitFor(const std::function<bool()>& pred, int64_t deadlineNs, const char* what);
int64_t nowNs();
void advance(int64_t ns);
uint64_t rnd(uint64_t n);     // from the schedule's generator
long steps();
int self();
void name(const std::string& s);
std::string describe();
void noYield(bool b);         // suspends preemption in the current thread
// called when no thread can run and no timeout is pending, or limits are hit
extern std::function<void(const char* why)> onStuck;
extern std::function<void()> onStep;

// --- a pool of forked scenario runs -------------------------------------
// Reads one scenario per line from stdin, runs fn in a forked child for each,
// prints "BEGIN <i>", the child's output, "END <i> <status>".
using Scenario = std::map<std::string, std::string>;
Scenario parse(const std::string& line);
int pool(int jobs, int realSeconds,
         const std::function<void(const std::string& line, FILE* out)>& fn);
}
