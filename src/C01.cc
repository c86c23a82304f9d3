#include "kit.hpp"
using namespace kit;
const vf::Config vf::config = {
    "C01",
    "a case is one generated environment configuration, 1-3 single-valued tables and a sequence of put/insert/update/append/"
    "reserve/replace/delete/lookup operations grouped in committed transactions; non-trivial: at least one commit with "
    "a table deeper than one page and at least one deletion or value replacement",
    40000, 600000};
void vf::run_case(Ctx &c) {
  Db db(c);
  CfgReq rq;
  db.open_env(gen_cfg(c, rq));
  db.make_tables(1 + c.below(3), 1, c.thorough ? 1200 : 600, true);
  c.plan_ops(10 + c.skewed(c.thorough ? 400 : 250));
  unsigned depth = 0;
  while (c.next_op()) {
    if (db.tx.empty()) {
      if (c.chance(1, 12)) {
        db.reopen();
        db.check_committed("after reopening");
      }
      db.begin();
    }
    Table &t = db.tabs[c.below(db.tabs.size())];
    bool ok = true;
    switch (c.weighted({24, 10, 12, 10, 14, 8, 2, 1})) {
    case 0: ok = db.op_put(t); break;
    case 1: ok = db.op_get(t); break;
    case 2: ok = db.op_del(t); break;
    case 3: ok = db.op_replace(t); break;
    case 4: ok = db.op_bulk(t, 150); break;
    case 5: {
      MDBX_stat s;
      db.must(mdbx_dbi_stat(db.txn(), t.dbi, &s, sizeof s), "stat");
      depth = std::max(depth, s.ms_depth);
      db.commit();
      db.check_committed("after commit");
      break;
    }
    case 6: db.check_table(db.txn(), t.dbi, db.cur().ro(t.name), "inside the transaction", c.flip()); break;
    case 7: ok = db.op_clear(t); break;
    }
    if (!ok && !db.tx.empty())
      db.abort();
  }
  if (!db.tx.empty()) {
    db.check_current("before the last commit");
    db.commit();
    db.check_committed("after the last commit");
  }
  if (depth > 1) c.nontrivial();
  c.label(depth > 3 ? "depth>3" : depth > 2 ? "depth=3" : depth > 1 ? "depth=2" : "depth<=1");
  db.must(db.close(), "close");
  // the stored state survives closing
  db.must(db.Env::open(c, db.path, db.cfg), "final reopen");
  db.reopen_tables();
  db.check_committed("after the final reopen");
  db.env_chk("at the end");
  db.must(db.close(), "close");
}
