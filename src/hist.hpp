// Histories of data operations, table life cycles and transaction boundaries under a model.
#pragma once
#include "kit.hpp"
namespace hist {
using namespace kit;
struct H {
  Ctx &c;
  Db db;
  unsigned committed = 0, undone = 0, reads = 0;
  bool mainonly = false;
  std::set<Bytes> touched; // tables some operation was tried on
  explicit H(Ctx &c) : c(c), db(c) {}

  bool other_flags(const Bytes &n, unsigned flags) {
    for (auto &m : db.st) {
      auto it = m.t.find(n);
      if (it != m.t.end() && it->second->flags != flags) return true;
    }
    return false;
  }
  // ---- whole contents
  void check_dyn(MDBX_txn *t, const Model &m, const char *where) {
    if (mainonly) return;
    for (int i = 0; i < 4; ++i) {
      Bytes n = "x" + std::to_string(i);
      MDBX_dbi d = 0;
      int rc = mdbx_dbi_open(t, n.c_str(), MDBX_DB_ACCEDE, &d);
      auto it = m.t.find(n);
      if (it == m.t.end()) {
        if (rc != MDBX_NOTFOUND) c.fail("%s: opening absent table %s returned %s", where, n.c_str(), rcname(rc));
      } else {
        if (rc == MDBX_INCOMPATIBLE && other_flags(n, it->second->flags)) {
          // re-created with other flags by the open write transaction: the env-wide handle does not fit this snapshot
          c.label("handle of other flags");
          continue;
        }
        if (rc) c.fail("%s: opening table %s returned %s", where, n.c_str(), rcname(rc));
        db.check_table(t, d, *it->second, (Bytes(where) + ", table " + n).c_str(), c.flip());
        uint64_t s = 0;
        db.must(mdbx_dbi_sequence(t, d, &s, 0), "mdbx_dbi_sequence(0)");
        if (s != it->second->seq) c.fail("%s: sequence of %s is %llu, expected %llu", where, n.c_str(), (unsigned long long)s, (unsigned long long)it->second->seq);
      }
    }
  }
  void check_model(MDBX_txn *t, const Model &m, const char *where) {
    ++reads;
    TR(c, "check of the contents %s", where);
    db.check_all(t, m, where);
    for (auto &tb : db.tabs) {
      uint64_t s = 0;
      db.must(mdbx_dbi_sequence(t, tb.dbi, &s, 0), "mdbx_dbi_sequence(0)");
      if (s != m.ro(tb.name).seq) c.fail("%s: sequence of %s is %llu, expected %llu", where, tb.name.c_str(), (unsigned long long)s, (unsigned long long)m.ro(tb.name).seq);
    }
    MDBX_canary k{};
    db.must(mdbx_canary_get(t, &k), "mdbx_canary_get");
    if (k.x != m.canary.x || k.y != m.canary.y || k.z != m.canary.z)
      c.fail("%s: markers are %llx %llx %llx, expected %llx %llx %llx", where, (unsigned long long)k.x, (unsigned long long)k.y, (unsigned long long)k.z,
             (unsigned long long)m.canary.x, (unsigned long long)m.canary.y, (unsigned long long)m.canary.z);
    check_dyn(t, m, where);
  }
  void check_committed(const char *where) {
    if (!db.tx.empty() && !(db.cfg.flags & MDBX_NOSTICKYTHREADS)) return;
    MDBX_txn *t;
    db.must(mdbx_txn_begin(db.env, nullptr, MDBX_TXN_RDONLY, &t), "mdbx_txn_begin(RDONLY)");
    check_model(t, db.st[0], where);
    db.must(mdbx_txn_abort(t), "abort of a read transaction");
  }
  // ---- operations
  bool data_op() {
    Table &t = db.tabs[c.below(db.tabs.size())];
    touched.insert(t.name);
    switch (c.weighted({20, 10, 8, 6, 24, 3, 2, 2})) {
    case 0: return db.op_put(t);
    case 1: return t.dom.flags & MDBX_DUPSORT ? db.op_multi_put(t) : db.op_put(t);
    case 2: return db.op_del(t);
    case 3: return db.op_replace(t);
    case 4: return db.op_bulk(t, 150);
    case 5: return db.op_sequence(t);
    case 6: return db.op_clear(t);
    default: {
      MDBX_canary k{c.bits(), c.bits(), c.bits(), 0};
      int rc = mdbx_canary_put(db.txn(), &k);
      TR(c, "canary_put -> %s", rcname(rc));
      db.must(rc, "mdbx_canary_put");
      MDBX_canary &mk = db.cur().canary;
      if (k.x != mk.x || k.y != mk.y || k.z != mk.z) {
        mk = k;
        mk.v = mdbx_txn_id(db.txn());
      }
      return true;
    }
    }
  }
  bool dyn_op() {
    if (mainonly) return true;
    Bytes n = "x" + std::to_string(c.below(4));
    touched.insert(n);
    Model &m = db.cur();
    auto it = m.t.find(n);
    if (it != m.t.end() && c.chance(1, 8)) { // open with other flags
      const unsigned fl = gen_table_flags(c, 0), has = it->second->flags;
      const bool create = c.flip(), differs = fl != has;
      MDBX_dbi d = 0;
      int rc = mdbx_dbi_open(db.txn(), n.c_str(), (MDBX_db_flags_t)(fl | (create ? MDBX_CREATE : 0)), &d);
      TR(c, "dbi_open %s flags=%x%s while it has %x -> %s", n.c_str(), fl, create ? "|CREATE" : "", has, rcname(rc));
      if (db.full(rc)) return false;
      if (!differs)
        db.must(rc, "mdbx_dbi_open with the actual flags");
      else if (!create || !it->second->m.empty())
        db.expect(rc, MDBX_INCOMPATIBLE, "mdbx_dbi_open with other flags");
      else {
        db.must(rc, "mdbx_dbi_open(CREATE) of an empty table with other flags");
        uint64_t seq = it->second->seq;
        m.t[n] = std::make_shared<MTable>(fl);
        m.t[n]->seq = seq;
        unsigned got = 0;
        db.must(mdbx_dbi_flags(db.txn(), d, &got), "mdbx_dbi_flags");
        if (got != fl) c.fail("a re-created table has flags %x, expected %x", got, fl);
        c.label("recreate");
      }
      c.label("open-flags");
      return true;
    }
    Table tb;
    tb.name = n;
    unsigned fl = it == m.t.end() ? gen_table_flags(c, 0) | MDBX_CREATE : (unsigned)MDBX_DB_ACCEDE;
    int rc = mdbx_dbi_open(db.txn(), n.c_str(), (MDBX_db_flags_t)fl, &tb.dbi);
    TR(c, "dbi_open %s flags=%x -> %s %u", n.c_str(), fl, rcname(rc), tb.dbi);
    if (db.full(rc)) return false;
    db.must(rc, it == m.t.end() ? "mdbx_dbi_open(CREATE)" : "mdbx_dbi_open of an existing table");
    if (it == m.t.end()) {
      m.t[n] = std::make_shared<MTable>(fl & ~MDBX_CREATE);
      c.label("create");
    }
    MTable &w = m.rw(n);
    tb.dom = gen_domain(c, w.flags, db.cfg.ps, 100);
    tb.dom.salt = 5, tb.dom.klen = 4, tb.dom.vlen = 4;
    if (w.flags & (MDBX_DUPFIXED | MDBX_INTEGERDUP)) tb.dom.vlen = 4;
    if (c.chance(1, 4)) {
      bool del = c.flip();
      rc = mdbx_drop(db.txn(), tb.dbi, del);
      TR(c, "drop %s del=%d -> %s", n.c_str(), del, rcname(rc));
      if (db.full(rc)) return false;
      db.must(rc, "mdbx_drop");
      if (del)
        m.t.erase(n);
      else {
        if (!w.m.empty()) w.seq = 0; // the purge of an empty table does nothing
        w.clear();
      }
      c.label(del ? "drop" : "clear-dyn");
      return true;
    }
    return c.chance(1, 6) ? db.op_sequence(tb) : db.op_bulk(tb, 80);
  }
  // a boundary failed or the transaction is unusable: drop everything
  void drop_all() {
    while (!db.tx.empty()) db.abort();
  }
  void finish_stack(bool commit) { // commit or abort the outermost (or a middle) transaction with nested ones still open
    size_t level = c.below(db.tx.size());
    if (commit) {
      db.publishing = level == 0;
      int rc = mdbx_txn_commit(db.tx[level]);
      db.publishing = false;
      TR(c, "commit of level %zu of %zu -> %s", level + 1, db.tx.size(), rcname(rc));
      if (db.full(rc)) {
        // everything from that level on is gone; outer ones may be broken
        db.tx.resize(level), db.st.resize(level + 1);
        drop_all();
        return;
      }
      db.must(rc, "mdbx_txn_commit of a transaction with open nested ones");
      Model m = std::move(db.st.back());
      db.tx.resize(level), db.st.resize(level + 1);
      db.st.back() = std::move(m);
      ++committed;
      if (level == 0) published();
      c.label("commit-with-open-nested");
    } else {
      int rc = mdbx_txn_abort(db.tx[level]);
      TR(c, "abort of level %zu of %zu -> %s", level + 1, db.tx.size(), rcname(rc));
      db.must(rc, "mdbx_txn_abort of a transaction with open nested ones");
      db.tx.resize(level), db.st.resize(level + 1);
      ++undone;
      c.label("abort-with-open-nested");
    }
  }
  void checkpoint() {
    if (db.tx.size() > 1 && c.chance(1, 6)) { // with a nested transaction open
      const size_t level = c.below(db.tx.size() - 1);
      db.expect(mdbx_txn_checkpoint(db.tx[level], MDBX_TXN_READWRITE, nullptr), MDBX_BAD_TXN, "mdbx_txn_checkpoint with a nested transaction open");
      return;
    }
    size_t level = db.tx.size() - 1;
    unsigned weak = level || !allow_weak ? 0 : c.one<unsigned>({0, 0, MDBX_TXN_NOMETASYNC, MDBX_TXN_NOSYNC});
    top_flags |= weak;
    db.publishing = level == 0;
    int rc = mdbx_txn_checkpoint(db.tx[level], (MDBX_txn_flags_t)weak, nullptr);
    db.publishing = false;
    TR(c, "checkpoint of level %zu of %zu, weak=%x -> %s", level + 1, db.tx.size(), weak, rcname(rc));
    if (db.full(rc)) {
      c.label("checkpoint-full");
      if (level == 0 && mdbx_txn_abort(db.tx[0]) == MDBX_BAD_TXN) // terminated by the failed commit
        db.tx.clear(), db.st.resize(1);
      else if (level == 0)
        c.fail("a transaction is still alive after a failed checkpoint");
      else
        dead = true;
      return;
    }
    if (rc != MDBX_RESULT_TRUE) db.must(rc, "mdbx_txn_checkpoint");
    Model m = db.st.back();
    db.tx.resize(level + 1), db.st.resize(level + 2);
    db.st[level + 1] = m;
    if (rc == MDBX_SUCCESS) {
      db.st[level] = m;
      c.label(level ? "nested-checkpoint" : "checkpoint");
      ++committed;
      if (level == 0) published();
    } else { // nothing to commit: the contents are equal anyway
      c.label("checkpoint-noop");
      same(db.st[level], m, "checkpoint said that there is nothing to commit");
      db.st[level] = m;
    }
    check_model(db.txn(), db.cur(), "after a checkpoint");
    if (level == 0) check_committed("after a checkpoint");
  }
  bool dead = false;
  void same(const Model &a, const Model &b, const char *what) {
    bool eq = a.t.size() == b.t.size() && a.canary.x == b.canary.x && a.canary.y == b.canary.y && a.canary.z == b.canary.z;
    if (eq)
      for (auto &x : a.t) {
        auto y = b.t.find(x.first);
        if (y == b.t.end() || y->second->m != x.second->m || y->second->seq != x.second->seq) eq = false;
      }
    if (!eq) c.fail("%s, but there are changes", what);
  }
  void rollback() {
    while (db.tx.size() > 1 && c.flip()) db.abort();
    size_t level = db.tx.size() - 1;
    int rc = mdbx_txn_rollback(db.tx[level]);
    TR(c, "rollback of level %zu -> %s", level + 1, rcname(rc));
    if (rc == MDBX_BAD_TXN || rc == MDBX_RESULT_TRUE) c.label("rollback-refused");
    db.must(rc, "mdbx_txn_rollback");
    db.st[level + 1] = db.st[level];
    ++undone;
    c.label("rollback");
    check_model(db.txn(), db.cur(), "after a rollback");
  }
  void brk() {
    int rc = mdbx_txn_break(db.txn());
    TR(c, "break level %zu -> %s", db.tx.size(), rcname(rc));
    db.must(rc, "mdbx_txn_break");
    Table &t = db.tabs[0];
    Bytes k = t.dom.gen_key(c), v = t.dom.gen_val(c);
    MDBX_val kk = V(k), vv = V(v);
    db.expect(mdbx_put(db.txn(), t.dbi, &kk, &vv, MDBX_UPSERT), MDBX_BAD_TXN, "mdbx_put in a broken transaction");
    db.expect(mdbx_get(db.txn(), t.dbi, &kk, &vv), MDBX_BAD_TXN, "mdbx_get in a broken transaction");
    if (c.flip()) {
      rc = mdbx_txn_commit(db.txn());
      TR(c, "commit of the broken -> %s", rcname(rc));
      if (rc != MDBX_RESULT_TRUE) c.fail("commit of a broken transaction returned %s", rcname(rc));
      db.tx.pop_back(), db.st.pop_back();
    } else
      db.abort();
    ++undone;
    c.label("break");
  }
  void embark() {
    MDBX_txn *t = db.tx[0];
    db.publishing = true;
    int rc = mdbx_txn_commit_embark_read(&t, nullptr);
    db.publishing = false;
    TR(c, "commit_embark_read -> %s", rcname(rc));
    if (db.full(rc)) { // the write transaction is gone
      db.tx.clear();
      db.st.resize(1);
      if (t) dead = true;
      return;
    }
    if (rc == MDBX_RESULT_TRUE) { // nothing to commit, no actions performed
      same(db.st[0], db.st[1], "commit_embark_read said that there is nothing to commit");
      if (t != db.tx[0]) c.fail("commit_embark_read changed the handle without committing");
      check_model(t, db.cur(), "after a refused commit_embark_read");
      return;
    }
    db.must(rc, "mdbx_txn_commit_embark_read");
    db.st[0] = db.st[1];
    db.tx.clear(), db.st.resize(1);
    ++committed;
    published();
    c.label("embark-read");
    check_model(t, db.st[0], "in the read transaction after commit_embark_read");
    if (c.flip()) {
      bool stale = c.chance(1, 4) && (db.cfg.flags & MDBX_NOSTICKYTHREADS);
      if (stale) {
        top_flags = 0;
        db.begin();
        began();
        if (!data_op()) {
          drop_all();
          stale = false;
        } else {
          uint64_t id = mdbx_txn_id(t);
          db.commit();
          published();
          MDBX_txn_info ti;
          db.must(mdbx_txn_info(t, &ti, 0), "mdbx_txn_info");
          stale = ti.txn_reader_lag > 0;
          (void)id;
        }
      }
      const bool prep = c.flip();
      MDBX_txn *w = nullptr;
      const MDBX_txn_flags_t af = prep ? MDBX_TXN_RDONLY_PREPARE : c.one({MDBX_TXN_READWRITE, MDBX_TXN_TRY, allow_weak ? MDBX_TXN_NOMETASYNC : MDBX_TXN_READWRITE});
      top_flags = af & (MDBX_TXN_NOMETASYNC | MDBX_TXN_NOSYNC);
      rc = mdbx_txn_amend(t, &w, af, nullptr);
      TR(c, "amend%s%s -> %s", prep ? " prepare" : "", stale ? " stale" : "", rcname(rc));
      if (stale) {
        if (rc != MDBX_RESULT_TRUE || w) c.fail("mdbx_txn_amend over a newer snapshot returned %s", rcname(rc));
        db.must(mdbx_txn_abort(t), "abort of the read transaction");
        return;
      }
      db.must(rc, "mdbx_txn_amend");
      c.label("amend");
      db.tx.push_back(w), db.st.push_back(db.st.back());
      began();
      check_model(w, db.cur(), "in the transaction from amend");
      if (prep) db.must(mdbx_txn_abort(t), "abort of the prepared read transaction");
    } else
      db.must(mdbx_txn_abort(t), "abort of the read transaction");
  }
  void nested_ro() {
    MDBX_txn *t;
    int rc = mdbx_txn_begin(db.env, db.txn(), MDBX_TXN_RDONLY, &t);
    TR(c, "begin nested read-only -> %s", rcname(rc));
    db.must(rc, "mdbx_txn_begin(nested, RDONLY)");
    check_model(t, db.cur(), "in a nested read-only transaction");
    Table &tb = db.tabs[0];
    Bytes k = tb.dom.gen_key(c), v = tb.dom.gen_val(c);
    MDBX_val kk = V(k), vv = V(v);
    rc = mdbx_put(t, tb.dbi, &kk, &vv, MDBX_UPSERT);
    if (rc != MDBX_EACCESS && rc != MDBX_BAD_TXN) c.fail("mdbx_put in a nested read-only transaction returned %s", rcname(rc));
    db.must(c.flip() ? mdbx_txn_commit(t) : mdbx_txn_abort(t), "end of a nested read-only transaction");
    check_model(db.txn(), db.cur(), "after a nested read-only transaction");
    c.label("nested-ro");
  }
  // ---- pinned read transactions (need MDBX_NOSTICKYTHREADS)
  struct Rd {
    MDBX_txn *t;
    Model m;
    uint64_t id;
  };
  std::vector<Rd> readers;
  unsigned max_readers = 0; // pinned by reader_op()
  void check_reader(Rd &r, const char *where) {
    uint64_t id = mdbx_txn_id(r.t);
    if (id != r.id) c.fail("%s: a reader of snapshot %llu is now of %llu", where, (unsigned long long)r.id, (unsigned long long)id);
    db.check_all(r.t, r.m, where);
  }
  void end_reader(size_t i) {
    check_reader(readers[i], "in a pinned reader before its end");
    db.must(mdbx_txn_abort(readers[i].t), "abort of a read transaction");
    readers.erase(readers.begin() + i);
  }
  void end_readers() {
    while (!readers.empty()) end_reader(readers.size() - 1);
  }
  void reader_op() {
    if (!max_readers) return;
    if (readers.size() < max_readers && (readers.empty() || c.flip())) {
      Rd r;
      db.must(mdbx_txn_begin(db.env, nullptr, MDBX_TXN_RDONLY, &r.t), "mdbx_txn_begin(RDONLY)");
      r.id = mdbx_txn_id(r.t), r.m = db.st[0];
      TR(c, "reader of snapshot %llu", (unsigned long long)r.id);
      readers.push_back(r);
      c.label("reader");
    } else if (c.flip())
      end_reader(c.below(readers.size()));
    else {
      Rd &r = readers[c.below(readers.size())];
      if (c.chance(1, 3)) { // renew
        db.must(mdbx_txn_reset(r.t), "mdbx_txn_reset");
        db.must(mdbx_txn_renew(r.t), "mdbx_txn_renew");
        r.id = mdbx_txn_id(r.t), r.m = db.st[0];
        c.label("reader-renew");
      }
      check_reader(r, "in a pinned reader");
    }
  }
  // ---- geometry, at any moment
  bool geometry_op() {
    static const intptr_t step[] = {-1, 0, 4096, 65536, 1 << 18, 1 << 20};
    const intptr_t lower = c.one<intptr_t>({-1, -1, 0, 1 << 16, 1 << 20}), upper = c.one<intptr_t>({-1, -1, 96 << 20, 128 << 20, 48 << 20}),
                   now = c.one<intptr_t>({-1, -1, 0, 1 << 20, 3 << 20});
    intptr_t g = step[c.below(6)], s = step[c.below(6)];
    int rc = mdbx_env_set_geometry(db.env, lower, now, upper, g, s, -1);
    TR(c, "set_geometry lower=%zd now=%zd upper=%zd growth=%zd shrink=%zd -> %s", lower, now, upper, g, s, rcname(rc));
    c.label("geometry");
    if (g == 0 || upper > 0 || lower == 0) db.map_full_ok = true;
    if (rc == MDBX_SUCCESS) return true;
    if (rc == MDBX_EINVAL || rc == MDBX_UNABLE_EXTEND_MAPSIZE || rc == MDBX_MAP_FULL || rc == MDBX_TOO_LARGE) {
      c.label("geometry-refused");
      return true;
    }
    c.fail("mdbx_env_set_geometry returned %s", rcname(rc));
  }
  // ---- hooks
  virtual void configure(EnvCfg &g) {
    if (c.chance(1, 2)) g.flags |= MDBX_NOSTICKYTHREADS;
    if (c.chance(2, 3)) g.flags &= ~MDBX_WRITEMAP;
  }
  virtual CfgReq request() { return CfgReq(); }
  virtual void setup() {}
  virtual void boundary(const char *where) { check_committed(where); } // no write transaction is open
  virtual void inside(const char *where) { check_model(db.txn(), db.cur(), where); }
  virtual void before_commit() {}
  virtual void before_op() {} // a write transaction is open
  virtual void published() {} // a top-level transaction was committed with top_flags
  virtual void final_reopen() {
    db.must(db.close(), "close");
    db.must(db.Env::open(c, db.path, db.cfg), "final reopen");
    db.reopen_tables();
  }
  virtual void do_reopen() { db.reopen(); }
  virtual void reopened() {}
  virtual void began() {}    // a top-level write transaction was begun
  bool allow_weak = true;
  unsigned top_flags = 0;
  virtual bool extra(unsigned) { return true; } // own operations, weights follow the standard ones
  virtual void finish() {}
  virtual ~H() {
    for (auto &r : readers) mdbx_txn_abort(r.t);
  }
  unsigned max_ops = 160, thorough_ops = 300, max_keys = 300, thorough_keys = 600, max_tables = 2, chk_every = 0;
  enum { DATA, DYN, NEST, COMMIT, ABORT, FCOMMIT, FABORT, CHECKPOINT, ROLLBACK, BREAK, EMBARK, NRO, CHECK, READER, GEO, EXTRA };
  std::vector<unsigned> w{40, 8, 12, 9, 9, 3, 2, 5, 2, 2, 2, 2, 3, 0, 0};
  bool final_chk = true;
  void run() {
    EnvCfg g = gen_cfg(c, request());
    configure(g);
    db.open_env(g);
    db.make_tables(1 + c.below(max_tables), 0, c.thorough ? thorough_keys : max_keys, true);
    mainonly = db.tabs[0].name.empty();
    setup();
    if (!(db.cfg.flags & MDBX_NOSTICKYTHREADS)) max_readers = 0;
    c.plan_ops(10 + c.skewed(c.thorough ? thorough_ops : max_ops));
    while (c.next_op() && !dead) {
      if (db.tx.empty()) {
        if (c.chance(1, 10)) {
          end_readers();
          do_reopen();
          reopened();
          boundary("after reopening");
        }
        top_flags = allow_weak ? c.one<unsigned>({0, 0, 0, MDBX_TXN_NOMETASYNC, MDBX_TXN_NOSYNC}) : 0;
        db.begin(top_flags);
        began();
      }
      const bool wm = db.cfg.flags & MDBX_WRITEMAP;
      bool ok = true;
      before_op();
      const size_t op = c.weighted(w);
      switch (op) {
      case DATA: ok = data_op(); break;
      case DYN: ok = dyn_op(); break;
      case NEST:
        if (!wm && db.tx.size() < 6) {
          db.txn_full = false;
          db.begin_nested();
          if (db.txn_full) // the transaction may be broken
            while (!db.tx.empty()) db.abort();
        }
        break;
      case COMMIT: {
        bool nested = db.tx.size() > 1;
        before_commit();
        db.commit();
        ++committed;
        if (db.tx.empty()) published();
        if (db.tx.empty())
          boundary("after commit");
        else if (nested && c.flip())
          inside("in the parent after a nested commit");
        break;
      }
      case ABORT: {
        db.abort();
        ++undone;
        if (db.tx.empty())
          boundary("after abort");
        else
          inside("in the parent after a nested abort");
        break;
      }
      case FCOMMIT:
        finish_stack(true);
        if (db.tx.empty())
          boundary("after a commit with nested transactions open");
        else
          inside("in the parent after a commit with nested transactions open");
        break;
      case FABORT:
        finish_stack(false);
        if (db.tx.empty())
          boundary("after an abort with nested transactions open");
        else
          inside("in the parent after an abort with nested transactions open");
        break;
      case CHECKPOINT: checkpoint(); break;
      case ROLLBACK: rollback(); break;
      case BREAK: brk(); break;
      case EMBARK:
        if (db.tx.size() == 1) {
          embark();
          if (db.tx.empty() && !dead) boundary("after commit_embark_read");
        }
        break;
      case NRO:
        if (!wm && db.tx.size() < 6) nested_ro();
        break;
      case CHECK:
        if (c.flip())
          inside("inside the transaction");
        else
          check_committed("outside the open transaction");
        break;
      case READER: reader_op(); break;
      case GEO: ok = geometry_op(); break;
      default: ok = extra(op - EXTRA); break;
      }
      if (!ok && !db.tx.empty()) {
        db.abort();
        if (!db.tx.empty()) inside("in the parent after a full nested transaction");
      }
    }
    while (!db.tx.empty()) {
      if (!dead && c.flip()) {
        before_commit();
        db.commit();
        if (db.tx.empty()) published();
      } else {
        db.abort();
      }
    }
    boundary("at the end");
    end_readers();
    final_reopen();
    boundary("after the final reopen");
    if (final_chk) db.env_chk("at the end");
    finish();
    db.must(db.close(), "close");
    no_mapping();
  }
  void no_mapping() { // of the closed environment
    FILE *f = fopen("/proc/self/maps", "r");
    char line[4400];
    while (f && fgets(line, sizeof line, f))
      if (strstr(line, db.path.c_str())) {
        fclose(f);
        c.fail("a mapping remains after closing the environment: %.200s", line);
      }
    if (f) fclose(f);
  }
};
} // namespace hist
