#include "kit.hpp"
using namespace kit;
const vf::Config vf::config = {
    "C16",
    "a case is one configuration (page size, recycling policy, write-mapped or not, sync mode, recycling options) and 60..400 committed write transactions "
    "of one workload with a bounded key universe (overwrites, deletes and re-inserts, table clears, a queue with moving keys, large values of changing sizes, "
    "nested value trees, table create/drop), with readers pinned for a while and environments reopened; after every commit the number of used pages is compared "
    "with the peak of live pages plus pages retired since the oldest snapshot in use; non-trivial: the pages retired in total are at least 6 times the allowed bound's "
    "slack-free part",
    4500, 60000};
namespace {
double ratio_max = 0;
uint64_t now_retired(MDBX_txn *t, unsigned ps, uint64_t &dirty) {
  MDBX_txn_info i;
  if (mdbx_txn_info(t, &i, 0)) return 0;
  dirty = i.txn_space_dirty / ps;
  return i.txn_space_retired / ps;
}
} // namespace
void vf::run_case(Ctx &c) {
  CfgReq q;
  q.tuning = false, q.upper = 512u << 20;
  EnvCfg g = gen_cfg(c, q);
  g.upper = 512u << 20;
  if (g.ps == 256) g.upper = 128u << 20;
  g.flags |= MDBX_NOSTICKYTHREADS;
  if (c.chance(1, 3)) g.opts.emplace_back(MDBX_opt_rp_augment_limit, c.one<uint64_t>({1000000, 50000, 4096}));
  if (c.chance(1, 3)) g.opts.emplace_back(MDBX_opt_loose_limit, c.one<uint64_t>({0, 1, 255}));
  if (c.chance(1, 3)) g.opts.emplace_back(MDBX_opt_dp_reserve_limit, c.one<uint64_t>({0, 10}));
  if (c.chance(1, 4)) g.opts.emplace_back(MDBX_opt_merge_threshold, c.one<uint64_t>({8192, 25000}));
  if (c.chance(1, 4)) g.opts.emplace_back(MDBX_opt_prefer_waf_insteadof_balance, 1);
  Env e;
  auto must = [&](int rc, const char *what) {
    if (rc) c.fail("%s returned %s", what, rcname(rc));
  };
  must(e.open(c, c.dir + "/db", g), "open");
  TR(c, "%s", g.describe().c_str());
  const unsigned ps = g.ps;
  MDBX_txn *t;
  MDBX_dbi d, dd;
  const unsigned style = c.below(7); // 0 overwrite, 1 delete/insert, 2 queue, 3 large values, 4 multi-values, 5 clear, 6 create/drop
  const unsigned nkeys = 10 + c.below(style == 3 ? 60 : 400);
  const size_t vsmall = 1 + c.below(ps / 4), vbig = ps * (1 + c.below(style == 3 ? 40 : 4));
  const unsigned per = 1 + c.below(style == 3 ? 12 : 50);
  const bool mix = c.flip();
  const uint64_t seed = c.seed32();
  const unsigned tblflags = style == 4 ? MDBX_DUPSORT : 0;
  auto opendbi = [&] {
    must(mdbx_txn_begin(e.env, nullptr, MDBX_TXN_READWRITE, &t), "begin");
    must(mdbx_dbi_open(t, "t", (MDBX_db_flags_t)(tblflags | MDBX_CREATE), &d), "dbi_open");
    must(mdbx_txn_commit(t), "commit");
  };
  opendbi();
  const unsigned ntx = 60 + c.below(c.thorough ? 1500 : 340);
  vf::Bulk b(seed);
  Bytes buf(vbig + vsmall + 16, 'x');
  uint64_t head = 0, tail = 0;
  struct Rd {
    MDBX_txn *t;
    uint64_t id;
    uint64_t until, hash;
  };
  std::vector<Rd> rd;
  auto hash = [&](MDBX_txn *r) {
    MDBX_cursor *cur;
    must(mdbx_cursor_open(r, d, &cur), "cursor_open");
    MDBX_val k, v;
    uint64_t h = 1;
    int rc;
    while ((rc = mdbx_cursor_get(cur, &k, &v, MDBX_NEXT)) == MDBX_SUCCESS) {
      for (size_t i = 0; i < k.iov_len; ++i) h = (h ^ ((uint8_t *)k.iov_base)[i]) * 0x100000001b3ull;
      for (size_t i = 0; i < v.iov_len; i += 1 + v.iov_len / 64) h = (h ^ ((uint8_t *)v.iov_base)[i]) * 0x100000001b3ull;
    }
    mdbx_cursor_close(cur);
    if (rc != MDBX_NOTFOUND) c.fail("iteration: %s", rcname(rc));
    return h;
  };
  std::vector<uint64_t> churn{0}; // by transaction number since the start
  uint64_t first_id = 0, last_id = 0, steady_id = 0, peak = 0, total = 0;
  const bool durable = !(g.flags & (MDBX_SAFE_NOSYNC)) || (g.flags & MDBX_UTTERLY_NOSYNC) == MDBX_UTTERLY_NOSYNC;
  const unsigned sync_every = 1 + c.below(12);
  const unsigned max_rd = c.below(3);
  c.plan_ops(ntx);
  unsigned n = 0;
  uint64_t maxrun = (vbig + vsmall) / ps + 2;
  while (c.next_op()) {
    must(mdbx_txn_begin(e.env, nullptr, MDBX_TXN_READWRITE, &t), "begin");
    const uint64_t id = mdbx_txn_id(t);
    if (!first_id) first_id = id, steady_id = id - 1;
    const unsigned ops = 1 + b.below(per);
    auto val = [&](bool large) {
      size_t len = large ? b.below(vbig) : b.below(vsmall);
      memset(&buf[0], (int)b.next(), std::min<size_t>(len, 64));
      return MDBX_val{&buf[0], len};
    };
    if (style == 5 && n % 9 == 8) must(mdbx_drop(t, d, false), "drop");
    if (style == 6 && n % 7 == 6) {
      must(mdbx_dbi_open(t, "extra", MDBX_CREATE, &dd), "dbi_open");
      for (unsigned i = 0; i < ops * 4; ++i) {
        uint64_t id = b.below(nkeys);
        MDBX_val k{&id, 8}, v = val(false);
        must(mdbx_put(t, dd, &k, &v, MDBX_UPSERT), "put");
      }
    }
    if (style == 6 && n % 7 == 2) {
      int rc = mdbx_dbi_open(t, "extra", MDBX_DB_DEFAULTS, &dd);
      if (rc == MDBX_SUCCESS) must(mdbx_drop(t, dd, true), "drop");
    }
    for (unsigned i = 0; i < ops; ++i) {
      uint64_t key = b.below(nkeys);
      if (style == 2) key = head++;
      uint64_t be = __builtin_bswap64(key);
      MDBX_val k{&be, 8}, v = val(style == 3 || (mix && b.below(8) == 0));
      int rc = 0;
      if (style == 4) {
        uint64_t vv = b.below(200) * 0x9E3779B97F4A7C15ull;
        char small[64] = {0};
        memcpy(small, &vv, 8);
        be = __builtin_bswap64(key % 7);
        v = MDBX_val{small, 8 + (size_t)(vv >> 60)};
        rc = b.below(2) ? mdbx_put(t, d, &k, &v, MDBX_UPSERT) : mdbx_del(t, d, &k, &v);
      } else if (style == 1 && b.below(2))
        rc = mdbx_del(t, d, &k, nullptr);
      else
        rc = mdbx_put(t, d, &k, &v, MDBX_UPSERT);
      if (rc && rc != MDBX_NOTFOUND) c.fail("an update returned %s in transaction %u, used %llu", rcname(rc), n, (unsigned long long)peak);
    }
    while (style == 2 && head - tail > nkeys) {
      uint64_t be = __builtin_bswap64(tail++);
      MDBX_val k{&be, 8};
      must(mdbx_del(t, d, &k, nullptr), "del");
    }
    uint64_t dirty = 0, ret = now_retired(t, ps, dirty);
    const bool undo = b.below(15) == 0 && style != 2;
    if (undo) {
      must(mdbx_txn_abort(t), "abort");
    } else {
      must(mdbx_txn_commit(t), "commit");
      last_id = id;
      if (churn.size() < id - first_id + 2) churn.resize(id - first_id + 2);
      churn[id - first_id + 1] = ret + 4;
      total += ret;
    }
    if (!durable && n % sync_every == 0) {
      int rc = mdbx_env_sync_ex(e.env, true, false);
      if (rc != MDBX_RESULT_TRUE) must(rc, "sync");
      steady_id = last_id;
    }
    if (durable) steady_id = last_id;
    // readers come and go
    if (rd.size() < max_rd && c.chance(1, 16)) {
      Rd r;
      must(mdbx_txn_begin(e.env, nullptr, MDBX_TXN_RDONLY, &r.t), "begin a reader");
      r.id = mdbx_txn_id(r.t), r.until = n + 1 + c.skewed(60), r.hash = hash(r.t);
      TR(c, "txn %u: reader of %llu until %llu", n, (unsigned long long)r.id, (unsigned long long)r.until);
      rd.push_back(r);
      c.label("reader");
    }
    for (size_t i = 0; i < rd.size();)
      if (rd[i].until <= n) {
        if (hash(rd[i].t) != rd[i].hash) c.fail("a reader sees another contents at its end");
        must(mdbx_txn_abort(rd[i].t), "end of a reader");
        rd.erase(rd.begin() + i);
      } else
        ++i;
    if (c.chance(1, 60) && rd.empty()) {
      must(e.close(), "close");
      must(e.open(c, c.dir + "/db", g), "reopen");
      opendbi();
      steady_id = ++last_id;
      c.label("reopen");
    }
    // the accounting
    MDBX_txn *r;
    must(mdbx_txn_begin(e.env, nullptr, MDBX_TXN_RDONLY, &r), "begin");
    uint64_t live = 3;
    MDBX_stat s;
    must(mdbx_env_stat_ex(e.env, r, &s, sizeof s), "env_stat"); // includes GC, main and all tables
    live += s.ms_branch_pages + s.ms_leaf_pages + s.ms_overflow_pages;
    MDBX_envinfo info;
    must(mdbx_env_info_ex(e.env, r, &info, sizeof info), "env_info");
    mdbx_txn_abort(r);
    const uint64_t used = info.mi_last_pgno + 1;
    uint64_t oldest = steady_id;
    for (auto &x : rd) oldest = std::min(oldest, x.id);
    uint64_t pinned = 0;
    for (uint64_t i = last_id; i >= first_id && i + 2 > oldest; --i) // retired by oldest-1 .. are not reusable yet
      if (i - first_id + 1 < churn.size()) pinned += churn[i - first_id + 1];

    peak = std::max(peak, live + pinned + dirty);
    const double bound = peak * 1.3 + 3.0 * maxrun + 32;
    if (c.tracing) TR(c, "txn %u id %llu%s: live %llu dirty %llu retired %llu pinned %llu peak %llu used %llu", n, (unsigned long long)id, undo ? " aborted" : "", (unsigned long long)live,
                      (unsigned long long)dirty, (unsigned long long)ret, (unsigned long long)pinned, (unsigned long long)peak, (unsigned long long)used);
    double ra = used / (peak + 2.4 * maxrun + 20);
    if (getenv("C16_CAL") && ra > ratio_max) ratio_max = ra;
    if (used > bound)
      c.fail("style %u: %llu pages are used after %u transactions, while at most %llu were live, pinned or changed at once", style, (unsigned long long)used, n, (unsigned long long)peak);
    ++n;
  }
  if (getenv("C16_CAL")) {
    if (ratio_max > atof(getenv("C16_CAL"))) c.fail("style %u ratio %.2f", style, ratio_max);
    ratio_max = 0;
  }
  for (auto &x : rd) mdbx_txn_abort(x.t);
  rd.clear();
  must(e.close(), "close");
  static const char *names[] = {"overwrite", "delete-insert", "queue", "large values", "multi-values", "clear", "create-drop"};
  c.label(names[style]);
  if (total > 6 * peak) c.nontrivial();
}
