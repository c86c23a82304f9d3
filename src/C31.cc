// C31: data pointers stay valid for their documented lifetime.
#include "hist.hpp"
using namespace kit;
const vf::Config vf::config = {
    "C31",
    "a case is one generated configuration and a history of data operations, spilling, nested transactions, growth and readers; pointers to keys and values are sampled: those "
    "which mdbx_is_dirty() calls not dirty are compared with their first contents after every operation until the end of the transaction, those in dirty pages across reads, "
    "those of read transactions until their end; reserved space is filled after reads; non-trivial: a pointer to a clean page outlived 3 changes and pointers to dirty pages were checked across reads",
    70000, 1200000};
namespace {
struct S : hist::H {
  using H::H;
  struct P {
    MDBX_txn *t;
    uint64_t id;
    size_t level; // 0: of a reader
    const void *p;
    Bytes was, what;
    unsigned age;
  };
  std::vector<P> held;
  bool aged = false, dirty_seen = false;
  static MDBX_val val(const Bytes &b) { return V(b); }
  void check_held(const char *where) {
    for (size_t i = 0; i < held.size();) {
      P &h = held[i];
      bool alive = false;
      if (h.level)
        alive = db.tx.size() >= h.level && db.tx[h.level - 1] == h.t && mdbx_txn_id(db.tx[0]) == h.id;
      else
        for (auto &r : readers) alive |= r.t == h.t && mdbx_txn_id(r.t) == h.id;
      if (!alive) {
        held.erase(held.begin() + i);
        continue;
      }
      if (memcmp(h.p, h.was.data(), h.was.size())) {
        const Bytes now((const char *)h.p, h.was.size());
        c.fail("%s: the bytes of %s in %s were %s, but are %s after %u further operations", where, h.what.c_str(), h.level ? "a page which is not dirty" : "a read transaction", show(h.was).c_str(), show(now).c_str(), h.age);
      }
      if (++h.age >= 4) aged = true;
      ++i;
    }
  }
  // a walk; calls f(key, value) for up to n pairs
  template <class F> void walk(MDBX_txn *t, Table &tb, unsigned n, F f) {
    MDBX_cursor *k = nullptr;
    db.must(mdbx_cursor_open(t, tb.dbi, &k), "mdbx_cursor_open");
    MDBX_val kk, vv;
    Bytes key = tb.dom.gen_key(c);
    kk = V(key);
    int rc = c.chance(1, 4) ? mdbx_cursor_get(k, &kk, &vv, c.flip() ? MDBX_FIRST : MDBX_LAST) : mdbx_cursor_get(k, &kk, &vv, MDBX_SET_RANGE);
    const MDBX_cursor_op step = c.one<MDBX_cursor_op>({MDBX_NEXT, MDBX_PREV, MDBX_NEXT_NODUP, MDBX_PREV_NODUP});
    while (n-- && rc == 0) {
      f(kk, vv);
      rc = mdbx_cursor_get(k, &kk, &vv, step);
    }
    mdbx_cursor_close(k);
    if (rc && rc != MDBX_NOTFOUND) c.fail("a walk ended with %s", rcname(rc));
  }
  int dirty(MDBX_txn *t, const MDBX_val &v, const char *what) {
    int rc = mdbx_is_dirty(t, v.iov_base);
    if (rc != MDBX_RESULT_TRUE && rc != MDBX_RESULT_FALSE) c.fail("mdbx_is_dirty() of %s of %zu bytes returned %s", what, v.iov_len, rcname(rc));
    return rc == MDBX_RESULT_TRUE;
  }
  void hold(MDBX_txn *t, size_t level, const MDBX_val &v, const char *what) {
    if (held.size() >= 60) held.erase(held.begin() + c.below(60));
    held.push_back({t, mdbx_txn_id(t), level, v.iov_base, Bytes((const char *)v.iov_base, v.iov_len), what, 0});
  }
  void sample() {
    Table &tb = db.tabs[c.below(db.tabs.size())];
    std::vector<P> wet;
    walk(db.txn(), tb, 1 + c.below(6), [&](MDBX_val &k, MDBX_val &v) {
      for (int j = 0; j < 2; ++j) {
        MDBX_val &x = j ? v : k;
        if (!x.iov_len) continue;
        const char *what = j ? "a value" : "a key";
        if (dirty(db.txn(), x, what)) {
          wet.push_back({db.txn(), 0, 0, x.iov_base, Bytes((const char *)x.iov_base, x.iov_len), what, 0});
          c.label("dirty");
        } else {
          hold(db.txn(), db.tx.size(), x, what);
          c.label("clean");
        }
      }
    });
    if (wet.empty()) return;
    reads_only();
    for (auto &h : wet)
      if (memcmp(h.p, h.was.data(), h.was.size())) c.fail("the bytes of %s in a dirty page were %s, but changed after reads only", h.what.c_str(), show(h.was).c_str());
    dirty_seen = true;
  }
  void reads_only() {
    for (unsigned n = 1 + c.below(4); n--;) {
      Table &tb = db.tabs[c.below(db.tabs.size())];
      switch (c.below(6)) {
      case 0:
      case 1: db.op_get(tb); break;
      case 2: walk(db.txn(), tb, 1 + c.below(40), [](MDBX_val &, MDBX_val &) {}); break;
      case 3: {
        MDBX_stat s;
        db.must(mdbx_dbi_stat(db.txn(), tb.dbi, &s, sizeof s), "mdbx_dbi_stat");
        MDBX_txn_info i;
        db.must(mdbx_txn_info(db.txn(), &i, true), "mdbx_txn_info");
        break;
      }
      case 4: {
        Bytes a = tb.dom.gen_key(c), b = tb.dom.gen_key(c);
        MDBX_val x = V(a), y = V(b);
        ptrdiff_t d;
        db.must(mdbx_estimate_range(db.txn(), tb.dbi, &x, nullptr, &y, nullptr, &d), "mdbx_estimate_range");
        break;
      }
      default:
        if (db.cfg.flags & MDBX_NOSTICKYTHREADS && c.chance(1, 4)) check_committed("through another transaction");
      }
    }
  }
  bool reserve() {
    Table &tb = db.tabs[c.below(db.tabs.size())];
    if (tb.dom.flags & MDBX_DUPSORT) return true;
    Bytes k = tb.dom.gen_key(c);
    size_t n = c.chance(1, 8) ? db.cfg.ps * (1 + c.below(5)) + c.below(50) : c.skewed(std::min<size_t>(3000, db.cfg.ps));
    if (n > tb.dom.vmax) n = tb.dom.vmax;
    const MTable &m = db.cur().ro(tb.name);
    auto it = m.m.find(k);
    unsigned fl = MDBX_RESERVE | (it == m.m.end() && c.flip() ? MDBX_NOOVERWRITE : MDBX_UPSERT);
    MDBX_val kk = V(k), vv{nullptr, n};
    int rc = mdbx_put(db.txn(), tb.dbi, &kk, &vv, (MDBX_put_flags_t)fl);
    TR(c, "reserve %s %s %zu bytes = %s", tb.name.c_str(), show(k).c_str(), n, rcname(rc));
    if (db.full(rc)) return false;
    db.must(rc, "mdbx_put(RESERVE)");
    if (vv.iov_len != n || (n && !vv.iov_base)) c.fail("mdbx_put(RESERVE) of %zu bytes returned %zu bytes at %p", n, vv.iov_len, vv.iov_base);
    Bytes v(n, 0);
    uint32_t x = c.seed32();
    for (auto &b : v) b = (x = x * 1664525 + 1013904223) >> 24;
    db.cur().rw(tb.name).set(k, v);
    if (n) {
      if (!dirty(db.txn(), vv, "reserved space")) c.fail("reserved space is reported as not dirty");
      if (c.flip()) { // a part, reads of other tables, the rest
        memcpy(vv.iov_base, v.data(), n / 2);
        MDBX_txn_info i;
        db.must(mdbx_txn_info(db.txn(), &i, true), "mdbx_txn_info");
        for (auto &o : db.tabs)
          if (o.name != tb.name) walk(db.txn(), o, 20, [](MDBX_val &, MDBX_val &) {});
      }
      memcpy(vv.iov_base, v.data(), n);
    }
    MDBX_val got;
    kk = V(k);
    db.must(mdbx_get(db.txn(), tb.dbi, &kk, &got), "mdbx_get of a reserved value");
    if (B(got) != v) c.fail("the reserved value of %zu bytes is %s, but %s was stored", n, show(B(got)).c_str(), show(v).c_str());
    c.label("reserved");
    return true;
  }
  // data of clean pages as arguments
  bool self() {
    Table &from = db.tabs[c.below(db.tabs.size())], &to = db.tabs[c.below(db.tabs.size())];
    MDBX_val src{nullptr, 0};
    walk(db.txn(), from, 1 + c.below(5), [&](MDBX_val &k, MDBX_val &v) {
      MDBX_val &x = c.flip() ? k : v;
      if (x.iov_len && !dirty(db.txn(), x, "an item")) src = x;
    });
    if (!src.iov_base || (to.dom.flags & (MDBX_DUPFIXED | MDBX_INTEGERDUP))) return true;
    const Bytes was = B(src);
    if (was.size() > to.dom.vmax) return true;
    Bytes k = to.dom.gen_key(c);
    MDBX_val kk = V(k);
    int rc = mdbx_put(db.txn(), to.dbi, &kk, &src, MDBX_UPSERT);
    TR(c, "put %s %s -> the data of a clean page (%zu bytes) = %s", to.name.c_str(), show(k).c_str(), was.size(), rcname(rc));
    if (db.full(rc)) return false;
    db.must(rc, "mdbx_put of data of a clean page");
    db.cur().rw(to.name).add(k, was);
    kk = V(k);
    MDBX_val vv = V(was);
    rc = to.dom.flags & MDBX_DUPSORT ? mdbx_get_ex(db.txn(), to.dbi, &kk, &vv, nullptr) : mdbx_get(db.txn(), to.dbi, &kk, &vv);
    db.must(rc, "mdbx_get of the copied data");
    if (!(to.dom.flags & MDBX_DUPSORT) && B(vv) != was) c.fail("the data of a clean page (%s) was stored as %s", show(was).c_str(), show(B(vv)).c_str());
    c.label("stored from a clean page");
    return true;
  }
  CfgReq request() override {
    CfgReq r;
    r.dp_limit = true;
    return r;
  }
  void configure(EnvCfg &g) override {
    H::configure(g);
    max_readers = g.flags & MDBX_NOSTICKYTHREADS ? 2 : 0;
    w = {40, 3, 8, 7, 4, 1, 1, 0, 0, 1, 0, 0, 2, 4, 2, 8, 6};
  }
  void before_op() override {
    check_held("within the transaction");
    if (c.flip()) sample();
    if (!readers.empty() && c.chance(1, 6)) {
      auto &r = readers[c.below(readers.size())];
      Table &tb = db.tabs[c.below(db.tabs.size())];
      walk(r.t, tb, 1 + c.below(4), [&](MDBX_val &k, MDBX_val &v) {
        MDBX_val &x = c.flip() ? k : v;
        if (!x.iov_len) return;
        if (dirty(r.t, x, "an item in a read transaction")) c.fail("mdbx_is_dirty() returned true within a read transaction");
        hold(r.t, 0, x, "an item");
        c.label("held by a reader");
      });
    }
  }
  void before_commit() override { check_held("before the commit"); }
  void boundary(const char *where) override {
    check_held(where);
    if (c.chance(1, 4)) check_committed(where);
  }
  void inside(const char *where) override {
    check_held(where);
    if (c.chance(1, 4)) check_model(db.txn(), db.cur(), where);
  }
  bool extra(unsigned k) override { return k ? self() : reserve(); }
};
} // namespace
void vf::run_case(Ctx &c) {
  S s(c);
  s.run();
  if (s.aged && s.dirty_seen) c.nontrivial();
}
