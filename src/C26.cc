// C26: threads and processes writing at once give a serial history.
#include "mp.hpp"
const vf::Config vf::config = {
    "C26",
    "at least two transactions of concurrent writers were committed and at least three preemptions happened inside library calls",
    14000, 250000, 15, 60, 240, 3, true, 8, "exploration",
    {"schedules are sequentially consistent interleavings at the granularity of memory accesses (sanitizer build: basic blocks)",
     "a fork is made only while no other thread of the process is inside the library"}};
void vf::run_case(Ctx &c) {
  mp::Profile p;
  unsigned W[] = {40, 10, 10, 6, 6, 3, 3, 3, 0, 0, 10, 3, 6, 10, 1, 4, 3, 5};
  static_assert(sizeof W == sizeof p.w);
  memcpy(p.w, W, sizeof W);
  p.minproc = 1, p.maxproc = 4, p.maxthreads = 2 + c.below(2);
  p.shared_control = true;
  p.small_budget = 3;
  mp::run_profile(c, p);
}
