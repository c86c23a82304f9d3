#include "cur.hpp"
using namespace kit;
const vf::Config vf::config = {
    "C03",
    "a case is one generated environment configuration and table, filled and thinned by generated runs of writes, then read through up to four "
    "cursors inside a write transaction, a nested one or a read snapshot by generated positioning, stepping, multi-element, batch and scan calls; "
    "non-trivial: the table has at least 8 pairs and at least 20 cursor calls were compared with the oracle",
    100000, 1500000};
void vf::run_case(Ctx &c) {
  Db db(c);
  db.open_env(gen_cfg(c));
  db.make_tables(1, 0, c.thorough ? 600 : 250, true);
  Table &t = db.tabs[0];
  db.begin();
  const size_t fills = c.below(7);
  for (size_t i = 0; i < fills && !db.tx.empty(); ++i) {
    bool ok = c.chance(1, 4) ? (t.dom.flags & MDBX_DUPFIXED ? db.op_multi_put(t) : db.op_put(t)) : db.op_bulk(t, 160);
    if (!ok) db.abort();
  }
  if (db.tx.empty()) return db.close_all();
  const int mode = (int)c.weighted({30, 50, 15});
  MDBX_txn *rt = nullptr;
  if (mode == 1) {
    db.commit();
    db.must(mdbx_txn_begin(db.env, nullptr, MDBX_TXN_RDONLY, &rt), "begin(ro)");
  } else {
    if (mode == 2 && !(db.cfg.flags & MDBX_WRITEMAP)) {
      db.begin_nested();
      bool ok = db.op_bulk(t, 40);
      if (!ok && !db.tx.empty()) {
        while (!db.tx.empty()) db.abort();
        return db.close_all();
      }
    }
    rt = db.txn();
  }
  const View v(db.cur().ro(t.name));
  const MTable m = db.cur().ro(t.name);
  Cur cur[4];
  for (auto &x : cur)
    db.must(mdbx_cursor_open(rt, t.dbi, &x.mc), "cursor_open");
  c.plan_ops(20 + c.skewed(c.thorough ? 300 : 160));
  size_t n = 0;
  while (c.next_op()) {
    size_t w = c.weighted({70, 15, 8, 7});
    Cur &x = cur[w];
    switch (c.weighted({90, 6, 4})) {
    case 0: cur_random_op(c, x, v, t, m, 0); break;
    case 1: {
      Cur &y = cur[c.below(4)];
      if (x.p.s == Pos::AT && y.p.s == Pos::AT) {
        bool ign = c.flip();
        int r = mdbx_cursor_compare(x.mc, y.mc, ign);
        int want = ign && v.dup() ? v.ck(v.f[x.p.i].first, v.f[y.p.i].first) : (x.p.i > y.p.i) - (x.p.i < y.p.i);
        TR(c, "cursor_compare(%s,%s,%d) = %d", x.p.show().c_str(), y.p.show().c_str(), ign, r);
        if ((r > 0) - (r < 0) != (want > 0) - (want < 0)) c.fail("cursor_compare(#%zu, #%zu, %d) is %d", x.p.i, y.p.i, ign, r);
        c.label("compare");
      }
      break;
    }
    case 2: {
      Cur &y = cur[c.below(4)];
      if (&x != &y) {
        int rc = mdbx_cursor_copy(x.mc, y.mc);
        TR(c, "cursor_copy from %s -> %s", x.p.show().c_str(), rcname(rc));
        db.must(rc, "cursor_copy");
        y.p = x.p;
        c.label("copy");
      }
      break;
    }
    }
    if (c.chance(1, 5)) cur_state_checks(c, x, v);
    ++n;
  }
  for (auto &x : cur) mdbx_cursor_close(x.mc);
  db.check_table(rt, t.dbi, m, "after reading");
  if (v.n() >= 8 && n >= 20) c.nontrivial();
  c.label(!v.n() ? "empty" : v.n() < 8 ? "tiny" : v.n() < 64 ? "small" : "big");
  if (mode == 1) mdbx_txn_abort(rt);
  while (!db.tx.empty()) db.abort();
  db.check_committed("at the end");
  db.close_all();
}
