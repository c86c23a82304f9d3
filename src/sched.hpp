// Controlled concurrency: several processes with several threads each, of
// which exactly one runs at any time.  The library is compiled with calls at
// every memory access (or basic block); such a call is a possible preemption
// point.  A generated list of slices (actor, number of points, kill?) decides
// who runs for how long, so a schedule is a value that replays and shrinks.
#pragma once
#include "vf.hpp"
#include <functional>
#include <sys/types.h>

namespace sched {
enum { MAXACT = 8, MAXPROC = 6, MAXSLICE = 160 };
struct Slice {
  uint8_t actor;
  uint8_t kill;    // the whole process of the actor dies at the end of the slice
  uint32_t budget; // preemption points
};
struct Result {
  uint64_t points = 0, switches = 0, preempts = 0;
  unsigned kills = 0;
};
struct Sched {
  explicit Sched(vf::Ctx &c);
  ~Sched();
  void *shared(size_t bytes); // zeroed memory shared by all processes; call before run()
  // adds a process; its first function runs in the main thread of the process
  unsigned process(std::vector<std::function<void()>> actors);
  unsigned nactors() const;
  void run(const std::vector<Slice> &slices, Result &res);
  std::function<void(unsigned proc)> on_death; // in the controller, after a kill took effect
  vf::Ctx &c;
  struct Impl;
  Impl *I;
};
extern bool (*may_die)(unsigned proc); // asked, when not null, at the moment of a death
// ---- inside actors
int self();                 // actor number, -1 outside
int self_proc();
void wait_until(const std::function<bool()> &cond, const char *what); // lets others run
void yield();
bool killed(unsigned proc); // the process was killed
bool finished(unsigned actor); // the actor is done or dead
// forks; fn runs in the child in place of the calling actor, which continues when the child is done
void fork_here(const std::function<void()> &fn);
uint64_t now();             // event clock, increases with every call
} // namespace sched
