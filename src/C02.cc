#include "kit.hpp"
using namespace kit;
const vf::Config vf::config = {
    "C02",
    "a case is one generated environment configuration, 1-3 multi-value tables (variable-size, fixed-size, integer, reversed "
    "values) and a sequence of upserts, no-duplicate/key-only inserts, appends, multi-element stores, whole-key replacements, "
    "single-value updates, deletions and lookups grouped in committed transactions; non-trivial: at least one commit in which "
    "some key holds values in a nested tree or the table is deeper than one page",
    50000, 600000};
void vf::run_case(Ctx &c) {
  Db db(c);
  db.open_env(gen_cfg(c));
  db.make_tables(1 + c.below(3), 2, c.thorough ? 1200 : 400, true);
  c.plan_ops(10 + c.skewed(c.thorough ? 400 : 250));
  unsigned depth = 0;
  size_t maxnv = 0;
  while (c.next_op()) {
    if (db.tx.empty()) {
      if (c.chance(1, 12)) {
        db.reopen();
        db.check_committed("after reopening");
      }
      db.begin();
    }
    Table &t = db.tabs[c.below(db.tabs.size())];
    bool ok = true;
    switch (c.weighted({24, 12, 12, 10, 14, 8, 3, 1, 8})) {
    case 0: ok = db.op_put(t); break;
    case 1: ok = db.op_get(t); break;
    case 2: ok = db.op_del(t); break;
    case 3: ok = db.op_replace(t); break;
    case 4: ok = db.op_bulk(t, 150); break;
    case 5: {
      MDBX_stat s;
      db.must(mdbx_dbi_stat(db.txn(), t.dbi, &s, sizeof s), "stat");
      depth = std::max(depth, s.ms_depth);
      uint32_t mask = 0;
      int rc = mdbx_dbi_dupsort_depthmask(db.txn(), t.dbi, &mask);
      if (rc == MDBX_SUCCESS && mask) c.label("nested-tree"), maxnv = 2;
      if (rc == MDBX_SUCCESS && (mask & ~3u)) c.label("deep-nested-tree");
      db.commit();
      db.check_committed("after commit");
      break;
    }
    case 6: db.check_table(db.txn(), t.dbi, db.cur().ro(t.name), "inside the transaction", c.flip()); break;
    case 7: ok = db.op_clear(t); break;
    case 8: ok = db.op_multi_put(t); break;
    }
    if (!ok && !db.tx.empty())
      db.abort();
  }
  if (!db.tx.empty()) {
    db.check_current("before the last commit");
    db.commit();
    db.check_committed("after the last commit");
  }
  if (depth > 1 || maxnv > 1) c.nontrivial();
  c.label(depth > 3 ? "depth>3" : depth > 2 ? "depth=3" : depth > 1 ? "depth=2" : "depth<=1");
  db.must(db.close(), "close");
  db.must(db.Env::open(c, db.path, db.cfg), "final reopen");
  db.reopen_tables();
  db.check_committed("after the final reopen");
  db.env_chk("at the end");
  db.must(db.close(), "close");
}
