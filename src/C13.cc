#include "hist.hpp"
#include "parse.hpp"
using namespace kit;
const vf::Config vf::config = {
    "C13",
    "a case is one generated configuration, a history of data operations, table life cycles, nested transactions, checkpoints, aborts, "
    "geometry changes, pinned readers and reopenings; after each commit an independent parser walks the data file: page accounting, "
    "order, levels, counters, transaction numbers, free list, contents against the model; the library's checker must agree; "
    "non-trivial: at least two commits parsed, at least one with a height of 2 or a non-empty free list",
    22000, 400000};
namespace {
struct S : hist::H {
  using H::H;
  unsigned parsed = 0;
  bool rich = false;
  void configure(EnvCfg &g) override {
    H::configure(g);
    if (g.flags & MDBX_NOSTICKYTHREADS) max_readers = 3;
    w = {40, 8, 6, 14, 4, 2, 1, 5, 2, 1, 2, 0, 1, 6, 2};
  }
  void inspect(const char *where) {
    parse::File f = parse::read(parse::load(dxb(db.cfg, db.path)));
    if (!f.problems.empty()) {
      if (c.tracing)
        for (auto &p : f.problems) TR(c, "problem: %s", p.c_str());
      c.fail("%s: %s (%zu problems)", where, f.first().c_str(), f.problems.size());
    }
    Bytes d = parse::compare(f, db.st[0], db.tabs, true);
    if (!d.empty()) c.fail("%s: file contents: %s", where, d.c_str());
    ++parsed;
    if (f.free_pages || f.gc.tree.height > 1) rich = true;
    for (auto &t : f.tables)
      if (t.second.tree.height > 1) rich = true;
    if (f.gc.tree.height > 1) c.label("gc-height");
    if (f.gc.real.large) c.label("gc-large");
    if (f.free_pages) c.label("free");
  }
  void boundary(const char *where) override {
    inspect(where);
    if (c.chance(1, 8)) {
      int rc = mdbx_env_sync_ex(db.env, true, false);
      if (rc != MDBX_RESULT_TRUE) db.must(rc, "mdbx_env_sync_ex");
      inspect("after a sync");
      db.env_chk(where);
      c.label("checked");
    }
    if (c.chance(1, 6)) check_committed(where);
  }
  void inside(const char *where) override {
    if (c.chance(1, 4)) check_model(db.txn(), db.cur(), where);
  }
};
} // namespace
void vf::run_case(Ctx &c) {
  S s(c);
  s.run();
  if (s.parsed > 1 && s.rich) c.nontrivial();
}
