// C11: the death of a process harms no one else.
#include "mp.hpp"
const vf::Config vf::config = {
    "C11",
    "a process was killed inside a library call after it had been opening, reading or writing, and others went on or arrived later",
    8000, 250000, 10, 60, 240, 3, true, 8, "exploration",
    {"schedules are sequentially consistent interleavings at the granularity of memory accesses (sanitizer build: basic blocks); a death is SIGKILL at such a point",
     "the storage survives; the loss of unflushed data is the subject of C09 and C10"}};
void vf::run_case(Ctx &c) {
  mp::Profile p;
  unsigned W[] = {40, 16, 8, 4, 6, 3, 3, 2, 3, 2, 6, 4, 4, 6, 2, 3, 2, 0};
  static_assert(sizeof W == sizeof p.w);
  memcpy(p.w, W, sizeof W);
  p.minproc = 1, p.maxproc = 3, p.maxthreads = 2;
  p.kill_num = 1, p.kill_den = 6;
  p.latecomers = 1 + c.below(2);
  p.rewrite_after = true;
  p.small_budget = 2;
  mp::run_profile(c, p);
}
