#include "crash.hpp"
using namespace kit;
const vf::Config vf::config = {
    "C09",
    "a case is one generated configuration in the durable mode and a history of commits, checkpoints, nested transactions, aborts, geometry changes and reopenings; the system "
    "calls of the library are watched, and for sampled moments (within and around commits) the disk contents is rebuilt with some subset of the blocks not flushed since; each such "
    "file is opened under another boot identifier and must be valid and equal to the last committed state or the one being committed; non-trivial: at least one such moment lay "
    "within a commit and left some blocks out",
    20000, 200000, 20, 120, 300, 3, true};
namespace {
struct S : crash::Crasher {
  using Crasher::Crasher;
  CfgReq request() override {
    CfgReq r;
    r.sync_modes = false, r.upper = 40 << 20;
    return r;
  }
  void configure(EnvCfg &g) override {
    H::configure(g);
    allow_weak = false, max_readers = 1, final_chk = false;
    if (g.lower == (1 << 20)) g.lower = 1 << 16, g.growth = 1 << 16;
    //      DATA DYN NEST COM AB FC FA CP RB BR EM NRO CHK RD GEO
    w = {40, 8, 6, 16, 4, 2, 1, 6, 1, 1, 2, 0, 1, 2, 2};
    max_ops = 60, thorough_ops = 110, max_keys = 150, thorough_keys = 300;
  }
  void published() override { sync_states(), lo = states.size() - 1; }
  void finish() override {
    Crasher::finish();
    for (auto &i : images)
      if (i.extra && i.partial) c.nontrivial();
  }
};
} // namespace
void vf::run_case(Ctx &c) {
  S s(c);
  s.run();
}
