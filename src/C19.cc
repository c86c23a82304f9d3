// C19: lookups through cache entries equal plain lookups.
#include "hist.hpp"
using namespace kit;
const vf::Config vf::config = {
    "C19",
    "a case is a generated history (data operations, tables created, dropped and renamed, nested transactions, aborts, checkpoints, rollbacks, reopenings, defragmentations) with pinned readers of older "
    "snapshots; between the operations keys are looked up through long-living cache entries (shared by all transactions, by both functions) from the write transaction at any depth, from fresh readers and from pinned ones, and "
    "compared with mdbx_get in the same transaction; the claimed status is compared with the change of the entry; non-trivial: at least one hit, one refresh of a filled entry and one lookup from an old or a writing transaction",
    90000, 900000};
namespace {
struct S : hist::H {
  using H::H;
  std::map<std::pair<Bytes, Bytes>, MDBX_cache_entry_t> entries;
  unsigned hits = 0, refreshed = 0, special = 0;
  void configure(EnvCfg &g) override {
    H::configure(g);
    if (c.chance(2, 3)) g.flags |= MDBX_NOSTICKYTHREADS;
    if (g.flags & MDBX_NOSTICKYTHREADS) max_readers = 4;
    w = {30, 5, 5, 14, 4, 1, 1, 4, 2, 1, 2, 0, 1, 6, 0, 30, 1};
  }
  void one(MDBX_txn *t, MDBX_dbi d, const Bytes &name, const Bytes &key, unsigned tflags, const char *who) {
    auto ins = entries.insert({{name, key}, MDBX_cache_entry_t()});
    MDBX_cache_entry_t &e = ins.first->second;
    if (ins.second) mdbx_cache_init(&e);
    MDBX_val k = V(key), v = {nullptr, 0}, g = {nullptr, 0};
    const int rc = mdbx_get(t, d, &k, &g);
    if (rc != MDBX_SUCCESS && rc != MDBX_NOTFOUND) return;
    if (c.chance(1, 24)) { // as if another thread is just in the middle of an update
      MDBX_cache_entry_t busy = e;
      busy.last_confirmed_txnid = ~UINT64_C(0), busy.trunk_txnid = 0;
      if (c.flip()) busy.offset = 4096 * c.below(9) + c.below(4096), busy.length = c.below(5000);
      const MDBX_cache_entry_t b0 = busy;
      MDBX_cache_result_t r = mdbx_cache_get(t, d, &k, &v, &busy);
      if (memcmp(&b0, &busy, sizeof busy)) c.fail("%s: an entry which is being updated by another thread was changed", who);
      if (r.errcode != MDBX_EMULTIVAL && (r.errcode != rc || (rc == MDBX_SUCCESS && B(v) != B(g))))
        c.fail("%s: lookup through an entry which is being updated by another thread: %s, mdbx_get %s", who, rcname(r.errcode), rcname(rc));
      if (r.status != MDBX_CACHE_RACE && r.status != MDBX_CACHE_DIRTY && r.errcode != MDBX_EMULTIVAL) c.fail("%s: entry being updated by another thread, status %d", who, r.status);
      c.label("busy entry");
    }
    const MDBX_cache_entry_t was = e;
    const bool single = c.flip();
    const MDBX_cache_result_t r = single ? mdbx_cache_get_SingleThreaded(t, d, &k, &v, &e) : mdbx_cache_get(t, d, &k, &v, &e);
    const uint64_t id = mdbx_txn_id(t);
    TR(c, "cache_get%s %s snapshot %llu, %s %s -> %s status %d; entry trunk %llu confirmed %llu offset %zu length %u -> %llu %llu %zu %u", single ? "_SingleThreaded" : "", who, (unsigned long long)id,
       name.c_str(), show(key).c_str(), rcname(r.errcode), r.status, (unsigned long long)was.trunk_txnid, (unsigned long long)was.last_confirmed_txnid, was.offset, was.length,
       (unsigned long long)e.trunk_txnid, (unsigned long long)e.last_confirmed_txnid, e.offset, e.length);
    const bool same = was.trunk_txnid == e.trunk_txnid && was.last_confirmed_txnid == e.last_confirmed_txnid && was.offset == e.offset && was.length == e.length;
    const bool wr = !(mdbx_txn_flags(t) & MDBX_TXN_RDONLY);
    if (r.errcode == MDBX_EMULTIVAL && (tflags & MDBX_DUPSORT) && rc == MDBX_SUCCESS) {
      c.label("several values");
      if (r.status != MDBX_CACHE_ERROR) c.fail("%s: MDBX_EMULTIVAL with status %d", who, r.status);
      if (!same) c.fail("%s: MDBX_EMULTIVAL, but the entry was changed", who);
      return;
    }
    if (r.errcode != rc) c.fail("%s: cached lookup of %s in %s returned %s (status %d), mdbx_get %s", who, show(key).c_str(), name.c_str(), rcname(r.errcode), r.status, rcname(rc));
    if (rc == MDBX_SUCCESS && B(v) != B(g))
      c.fail("%s: cached lookup of %s in %s gives %s (status %d), mdbx_get %s", who, show(key).c_str(), name.c_str(), show(B(v)).c_str(), r.status, show(B(g)).c_str());
    if (e.trunk_txnid > e.last_confirmed_txnid) c.fail("%s: the entry is inconsistent after status %d", who, r.status);
    switch (r.status) {
    case MDBX_CACHE_BEHIND:
      if (id >= was.trunk_txnid) c.fail("%s: status BEHIND for snapshot %llu, but the entry reflects %llu", who, (unsigned long long)id, (unsigned long long)was.trunk_txnid);
      break;
    case MDBX_CACHE_DIRTY:
      if (!wr) c.fail("%s: status DIRTY in a read transaction", who);
      break;
    case MDBX_CACHE_CONFIRMED:
      if (e.offset != was.offset || e.length != was.length || e.trunk_txnid != was.trunk_txnid || e.last_confirmed_txnid <= was.last_confirmed_txnid)
        c.fail("%s: status CONFIRMED, but the entry is not just confirmed", who);
      break;
    case MDBX_CACHE_REFRESHED:
      if (same) c.fail("%s: status REFRESHED, but the entry is untouched", who);
      if ((e.offset != 0) != (rc == MDBX_SUCCESS)) c.fail("%s: status REFRESHED, but the entry does not reflect %s", who, rcname(rc));
      if (rc == MDBX_SUCCESS && e.length != v.iov_len) c.fail("%s: length in the refreshed entry is wrong", who);
      if (e.last_confirmed_txnid <= was.last_confirmed_txnid) c.fail("%s: a refreshed entry was not advanced", who);
      break;
    case MDBX_CACHE_HIT: case MDBX_CACHE_UNABLE: break;
    default: c.fail("%s: unexpected status %d with result %s", who, r.status, rcname(r.errcode));
    }
    if ((r.status == MDBX_CACHE_CONFIRMED || r.status == MDBX_CACHE_REFRESHED) && e.last_confirmed_txnid > (wr ? committed_id() : id))
      c.fail("%s: the entry is confirmed up to %llu, which is not committed or not visible here", who, (unsigned long long)e.last_confirmed_txnid);
    if (r.status < MDBX_CACHE_CONFIRMED && !same) c.fail("%s: status %d, but the entry was changed", who, r.status);
    static const char *const nm[] = {"BEHIND", "UNABLE", "RACE", "DIRTY", "HIT", "CONFIRMED", "REFRESHED"};
    c.label(nm[r.status + 2]);
    hits += r.status == MDBX_CACHE_HIT;
    refreshed += r.status == MDBX_CACHE_REFRESHED && was.trunk_txnid;
    special += r.status == MDBX_CACHE_BEHIND || r.status == MDBX_CACHE_DIRTY || wr;
  }
  uint64_t committed_id() { return mdbx_txn_id(db.tx[0]) - 1; }
  Bytes some_key(const Bytes &name, const Domain &dom, const Model &m) {
    // mostly keys which already have entries
    if (c.chance(2, 3)) {
      auto it = entries.lower_bound({name, dom.gen_key(c)});
      if (it != entries.end() && it->first.first == name) return it->first.second;
    }
    auto f = m.t.find(name);
    if (f == m.t.end()) return dom.gen_key(c);
    return dom.gen_key_for(c, *f->second);
  }
  void burst(MDBX_txn *t, const Model &m, const char *who) {
    for (unsigned i = 1 + c.below(6); i--;) {
      Table &tb = db.tabs[c.below(db.tabs.size())];
      if (mainonly || c.chance(3, 4)) {
        one(t, tb.dbi, tb.name, some_key(tb.name, tb.dom, m), tb.dom.flags, who);
        continue;
      }
      Bytes n = "x" + std::to_string(c.below(4));
      auto it = m.t.find(n);
      if (it == m.t.end() || it->second->flags & (MDBX_INTEGERKEY | MDBX_INTEGERDUP) || other_flags(n, it->second->flags)) continue;
      MDBX_dbi d;
      if (mdbx_dbi_open(t, n.c_str(), MDBX_DB_ACCEDE, &d)) continue;
      Bytes key = it->second->m.empty() || c.chance(1, 4) ? Bytes("k") + std::to_string(c.below(20)) : it->second->m.begin()->first;
      one(t, d, n, key, it->second->flags, who);
    }
  }
  bool extra(unsigned k) override {
    if (k == 1) return true;
    if (!readers.empty() && c.flip()) {
      Rd &r = readers[c.below(readers.size())];
      burst(r.t, r.m, "in a pinned reader");
    } else if (c.flip() || !(db.cfg.flags & MDBX_NOSTICKYTHREADS))
      burst(db.txn(), db.cur(), db.tx.size() > 1 ? "in a nested transaction" : "in the write transaction");
    else
      fresh("in a reader beside the write transaction");
    return true;
  }
  void fresh(const char *who) {
    MDBX_txn *t;
    db.must(mdbx_txn_begin(db.env, nullptr, MDBX_TXN_RDONLY, &t), "mdbx_txn_begin(RDONLY)");
    burst(t, db.st[0], who);
    db.must(mdbx_txn_abort(t), "abort of a read transaction");
  }
  void boundary(const char *where) override {
    if (c.chance(2, 3)) fresh("in a reader");
    if (!over && c.chance(1, 12)) {
      int rc = mdbx_env_defrag(db.env, c.below(64), 0, c.below(64), 0, -1, -1, nullptr, nullptr, nullptr);
      TR(c, "defrag -> %s", rcname(rc));
      c.label("defrag");
      fresh("in a reader after a defragmentation");
    }
    if (c.chance(1, 8)) check_committed(where);
  }
  bool over = false;
  void final_reopen() override {
    H::final_reopen();
    over = true;
  }
  void inside(const char *) override { burst(db.txn(), db.cur(), "in the write transaction"); }
};
} // namespace
void vf::run_case(Ctx &c) {
  S s(c);
  s.run();
  if (s.hits && s.refreshed && s.special) c.nontrivial();
}
