// C08: a reader sees one unchanging committed snapshot.
#include "mp.hpp"
const vf::Config vf::config = {
    "C08",
    "two or more transactions were committed concurrently to readers and at least three preemptions happened inside library calls",
    14000, 300000, 15, 60, 240, 3, true, 8, "exploration",
    {"schedules are sequentially consistent interleavings at the granularity of memory accesses (sanitizer build: basic blocks)"}};
void vf::run_case(Ctx &c) {
  mp::Profile p;
  mp::run_profile(c, p);
}
