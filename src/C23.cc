#include "kit.hpp"
#include <set>
using namespace kit;
const vf::Config vf::config = {
    "C23",
    "a case is 2 or 3 environments of different modes, sync modes, page sizes, geometry and tuning options that execute one generated history in lockstep "
    "(puts with all flags, deletes, lookups, replaces, range scans and deletions, clears, drops, sequences, markers, nested transactions, commits, aborts, reopenings "
    "and option changes of single environments at different moments); every return code and result must be equal; options are set to in- and out-of-range values and read back; "
    "non-trivial: at least 3 commits of more than 100 changes in total, compared over different page sizes or modes",
    28000, 300000};
namespace {
struct World {
  Env e;
  EnvCfg g;
  std::vector<MDBX_txn *> tx;
  std::vector<MDBX_dbi> d;
  ~World() {
    while (!tx.empty()) mdbx_txn_abort(tx.back()), tx.pop_back();
  }
};
struct Res {
  int rc = 0;
  uint64_t h = 14695981039346656037ull;
  void num(uint64_t x) {
    for (int i = 0; i < 8; ++i) h = (h ^ (x >> (8 * i) & 255)) * 0x100000001b3ull;
  }
  void val(const MDBX_val &v) {
    num(v.iov_len);
    for (size_t i = 0; i < v.iov_len; ++i) h = (h ^ ((const uint8_t *)v.iov_base)[i]) * 0x100000001b3ull;
  }
  bool operator==(const Res &o) const { return rc == o.rc && h == o.h; }
};
struct S {
  Ctx &c;
  std::vector<std::unique_ptr<World>> w;
  std::vector<Table> tabs;
  unsigned commits = 0, changes = 0;
  bool nested_ok = true, txn_full = false;
  explicit S(Ctx &c) : c(c) {}
  void must(int rc, const char *what) {
    if (rc) c.fail("%s returned %s", what, rcname(rc));
  }
  // ---- runs one action everywhere and compares
  template <class F> Res all(const char *what, F f) {
    Res first;
    bool full = false;
    std::vector<Res> rs;
    for (auto &x : w) {
      rs.push_back(f(*x));
      full |= rs.back().rc == MDBX_TXN_FULL;
    }
    if (full) {
      bool may = false;
      for (size_t i = 0; i < w.size(); ++i)
        if (rs[i].rc == MDBX_TXN_FULL) {
          if (!w[i]->g.small_dp) c.fail("%s returned MDBX_TXN_FULL without a limit of dirty pages", what);
          may = true;
        }
      txn_full = may;
      return rs[0];
    }
    for (size_t i = 1; i < rs.size(); ++i)
      if (!(rs[i] == rs[0]))
        c.fail("%s: %s in the environment 0, %s in the environment %zu%s", what, rcname(rs[0].rc), rcname(rs[i].rc), i, rs[i].rc == rs[0].rc ? " with another result" : "");
    TR(c, "%s -> %s %llx", what, rcname(rs[0].rc), (unsigned long long)rs[0].h);
    return rs[0];
  }
  static Res scan(World &x, size_t ti, bool back) {
    Res r;
    MDBX_cursor *cur;
    r.rc = mdbx_cursor_open(x.tx.back(), x.d[ti], &cur);
    if (r.rc) return r;
    MDBX_val k, v;
    int rc;
    while ((rc = mdbx_cursor_get(cur, &k, &v, back ? MDBX_PREV : MDBX_NEXT)) == MDBX_SUCCESS) r.val(k), r.val(v);
    mdbx_cursor_close(cur);
    r.rc = rc;
    MDBX_stat s;
    if ((rc = mdbx_dbi_stat(x.tx.back(), x.d[ti], &s, sizeof s))) r.rc = rc;
    r.num(s.ms_entries);
    uint64_t q = 0;
    if ((rc = mdbx_dbi_sequence(x.tx.back(), x.d[ti], &q, 0))) r.rc = rc;
    r.num(q);
    MDBX_canary k2{};
    mdbx_canary_get(x.tx.back(), &k2);
    r.num(k2.x), r.num(k2.y), r.num(k2.z);
    return r;
  }
  void compare(const char *where) {
    for (size_t i = 0; i < tabs.size(); ++i) {
      bool back = c.flip();
      all((Bytes("contents of ") + tabs[i].name + " " + where).c_str(), [&](World &x) { return scan(x, i, back); });
    }
  }
  void open_tables(World &x, bool create) {
    MDBX_txn *t;
    must(mdbx_txn_begin(x.e.env, nullptr, create ? MDBX_TXN_READWRITE : MDBX_TXN_RDONLY, &t), "begin");
    x.d.clear();
    for (auto &tb : tabs) {
      MDBX_dbi d;
      must(mdbx_dbi_open(t, tb.name.c_str(), (MDBX_db_flags_t)(create ? tb.dom.flags | MDBX_CREATE : (unsigned)MDBX_DB_ACCEDE), &d), "dbi_open");
      x.d.push_back(d);
    }
    must(create ? mdbx_txn_commit(t) : mdbx_txn_abort(t), "end");
  }
  // ---- options of one environment
  struct Opt {
    MDBX_option_t o;
    uint64_t lo, hi, def; // def: ~0 computed
    bool live;            // may be changed while open
    bool in_txn;
  };
  void try_option(World &x) {
    static const uint64_t ANY = ~0ull;
    static const Opt opts[] = {
        {MDBX_opt_max_db, 0, MDBX_MAX_DBI, 42, false, false},
        {MDBX_opt_max_readers, 1, 32767, ANY, false, false},
        {MDBX_opt_dp_reserve_limit, 0, INT32_MAX, ANY, true, true},
        {MDBX_opt_rp_augment_limit, 0, 0x7FFFffff, ANY, true, true},
        {MDBX_opt_txn_dp_initial, 128, 0x7FFFffff, ANY, true, false},
        {MDBX_opt_spill_max_denominator, 0, 255, 8, true, true},
        {MDBX_opt_spill_min_denominator, 0, 255, 8, true, true},
        {MDBX_opt_spill_parent4child_denominator, 0, 255, 0, true, true},
        {MDBX_opt_loose_limit, 0, 255, 64, true, true},
        {MDBX_opt_merge_threshold, 8192, 32768, 65536 / 3, true, true},
        {MDBX_opt_writethrough_threshold, 0, UINT32_MAX, 2, true, true},
        {MDBX_opt_prefault_write_enable, 0, 1, ANY, true, true},
        {MDBX_opt_prefer_waf_insteadof_balance, 0, 1, 1, true, true},
        {MDBX_opt_subpage_limit, 0, 65535, 65535, true, true},
        {MDBX_opt_subpage_room_threshold, 0, 65535, 0, true, true},
        {MDBX_opt_subpage_reserve_prereq, 0, 65535, 27525, true, true},
        {MDBX_opt_subpage_reserve_limit, 0, 65535, 2753, true, true},
        {MDBX_opt_split_reserve, 0, 32768, 0, true, true},
        {MDBX_opt_sync_bytes, 0, 1ull << 40, ANY, true, true},
        {MDBX_opt_sync_period, 0, UINT32_MAX, 2780315, true, true},
        {MDBX_opt_gc_time_limit, 0, 0, 0, true, true},
    };
    const Opt &o = opts[c.below(sizeof opts / sizeof *opts)];
    uint64_t was = 0, now = 0, v = 0;
    must(mdbx_env_get_option(x.e.env, o.o, &was), "mdbx_env_get_option");
    const unsigned kind = c.weighted({6, 3, 2});
    if (kind == 0)
      v = c.chance(1, 3) ? c.one<uint64_t>({o.lo, o.hi}) : o.lo + c.below(o.hi - o.lo + 1);
    else if (kind == 1)
      v = c.chance(1, 2) && o.lo ? o.lo - 1 : o.hi + 1 + (c.flip() ? 0 : c.below(1000));
    else
      v = UINT64_MAX; // the default
    if (o.o == MDBX_opt_gc_time_limit && kind == 1) v = (1ull << 32) + c.below(100);
    if (o.o == MDBX_opt_sync_bytes && kind == 1) v = UINT64_MAX - 1 - c.below(60000);
    // values that would make the work very slow
    if (kind == 0 && (o.o == MDBX_opt_txn_dp_initial || o.o == MDBX_opt_rp_augment_limit)) v = std::min<uint64_t>(v, 200000);
    int rc = mdbx_env_set_option(x.e.env, o.o, v);
    must(mdbx_env_get_option(x.e.env, o.o, &now), "mdbx_env_get_option");
    TR(c, "option %d: %llu, set %llu -> %s, now %llu", (int)o.o, (unsigned long long)was, (unsigned long long)v, rcname(rc), (unsigned long long)now);
    c.label("option");
    if (kind == 1) {
      if (rc != MDBX_EINVAL) c.fail("setting the option %d to %llu, out of range, returned %s", (int)o.o, (unsigned long long)v, rcname(rc));
      if (now != was) c.fail("a refused value of the option %d changed it from %llu to %llu", (int)o.o, (unsigned long long)was, (unsigned long long)now);
      c.label("option-refused");
      return;
    }
    if (!o.live || (!o.in_txn && !x.tx.empty())) {
      if (rc != MDBX_EPERM) c.fail("setting the option %d of an open environment%s returned %s", (int)o.o, x.tx.empty() ? "" : " within a transaction", rcname(rc));
      if (now != was) c.fail("the option %d changed in spite of MDBX_EPERM", (int)o.o);
      return;
    }
    if (rc) c.fail("setting the option %d to %llu returned %s", (int)o.o, (unsigned long long)v, rcname(rc));
    uint64_t want = v;
    if (kind == 2) {
      if (o.def == ANY) return;
      want = o.def;
    }
    bool ok = now == want;
    if (o.o == MDBX_opt_sync_bytes) ok = now >= std::min<uint64_t>(want, (uint64_t)0x7FFFffff * x.g.ps) && now < want + 2 * x.g.ps; // rounded to pages
    if (o.o == MDBX_opt_sync_period) ok = now + 2 >= want && now <= want + 2;
    if (o.o == MDBX_opt_txn_dp_initial) ok = now == want || (now < want && now >= 128); // limited by the geometry
    if (!ok) c.fail("the option %d set to %llu reads back as %llu", (int)o.o, (unsigned long long)want, (unsigned long long)now);
  }
  // ---- data operations
  struct Dat {
    size_t ti;
    Bytes k, v, v2;
  };
  void op() {
    const size_t ti = c.below(tabs.size());
    Domain &dm = tabs[ti].dom;
    const bool dup = dm.flags & MDBX_DUPSORT;
    Bytes k = dm.gen_key(c);
    switch (c.weighted({14, 8, 6, 4, 18, 5, 4, 1, 2, 2, 3, 2})) {
    case 0: {
      Bytes v = dm.gen_val(c);
      unsigned f = c.one<unsigned>({MDBX_UPSERT, MDBX_UPSERT, MDBX_NOOVERWRITE, MDBX_CURRENT, MDBX_APPEND, dup ? MDBX_NODUPDATA : MDBX_UPSERT, dup ? MDBX_APPENDDUP : MDBX_UPSERT, dup ? MDBX_ALLDUPS : MDBX_UPSERT});
      if (f == MDBX_APPENDDUP) { // of an existing pair: either nothing to do or a mismatch, not specified
        MDBX_val kk = V(k), vv = V(v);
        MDBX_cursor *cur;
        must(mdbx_cursor_open(w[0]->tx.back(), w[0]->d[ti], &cur), "cursor_open");
        int rc = mdbx_cursor_get(cur, &kk, &vv, MDBX_GET_BOTH);
        mdbx_cursor_close(cur);
        if (rc == MDBX_SUCCESS) break;
      }
      all(("put " + show(k) + " " + show(v) + " f" + std::to_string(f)).c_str(), [&](World &x) {
        Res r;
        MDBX_val kk = V(k), vv = V(v);
        r.rc = mdbx_put(x.tx.back(), x.d[ti], &kk, &vv, (MDBX_put_flags_t)f);
        if (r.rc == MDBX_KEYEXIST && f == MDBX_NOOVERWRITE) r.val(vv);
        return r;
      });
      ++changes;
      break;
    }
    case 1: {
      Bytes v = dm.gen_val(c);
      bool pair = c.flip();
      all(("del " + show(k)).c_str(), [&](World &x) {
        Res r;
        MDBX_val kk = V(k), vv = V(v);
        r.rc = mdbx_del(x.tx.back(), x.d[ti], &kk, pair && dup ? &vv : nullptr);
        return r;
      });
      ++changes;
      break;
    }
    case 2:
      all("get", [&](World &x) {
        Res r;
        MDBX_val kk = V(k), vv{};
        size_t n = 0;
        r.rc = mdbx_get_ex(x.tx.back(), x.d[ti], &kk, &vv, &n);
        if (!r.rc) r.val(vv), r.num(n);
        return r;
      });
      break;
    case 3: {
      Bytes v = dm.gen_val(c);
      if (dup) break;
      all("replace", [&](World &x) {
        Res r;
        std::vector<char> buf(70000 + (1 << 17));
        MDBX_val kk = V(k), vv = V(v), old{buf.data(), buf.size()};
        r.rc = mdbx_replace(x.tx.back(), x.d[ti], &kk, &vv, &old, MDBX_UPSERT);
        if (!r.rc) r.val(old);
        return r;
      });
      ++changes;
      break;
    }
    case 4: {
      const bool del = c.chance(1, 3);
      const unsigned n = 1 + c.below(100), start = c.below(dm.nkeys), stride = c.one<unsigned>({1, 1, 2, 3, 7}), seed = c.below(1000), vmax = 1 + c.below(dm.ps), one = dup && c.flip();
      std::vector<Bytes> ks, vs;
      for (unsigned i = 0; i < n; ++i) {
        ks.push_back(dm.key_of(one ? start : (start + i * stride) % dm.nkeys));
        vs.push_back(dup ? dm.val_of((seed + i * stride) % dm.nvals) : Bytes((seed * 7 + i * 31) % vmax, (char)('a' + i % 26)));
      }
      all(("run of " + std::to_string(n) + (del ? " del" : " put")).c_str(), [&](World &x) {
        Res r;
        for (unsigned i = 0; i < n; ++i) {
          MDBX_val kk = V(ks[i]), vv = V(vs[i]);
          int rc = del ? mdbx_del(x.tx.back(), x.d[ti], &kk, one ? &vv : nullptr) : mdbx_put(x.tx.back(), x.d[ti], &kk, &vv, MDBX_UPSERT);
          r.num(rc);
          if (rc == MDBX_TXN_FULL || rc == MDBX_MAP_FULL) {
            r.rc = rc;
            return r;
          }
        }
        return r;
      });
      changes += n;
      break;
    }
    case 5: { // range scan
      const unsigned n = c.below(20);
      const bool back = c.flip();
      const MDBX_cursor_op so = c.one({MDBX_SET_RANGE, MDBX_SET_KEY, MDBX_TO_KEY_LESSER_OR_EQUAL, MDBX_TO_KEY_GREATER_THAN});
      all("range scan", [&](World &x) {
        Res r;
        MDBX_cursor *cur;
        r.rc = mdbx_cursor_open(x.tx.back(), x.d[ti], &cur);
        if (r.rc) return r;
        MDBX_val kk = V(k), vv{};
        int rc = mdbx_cursor_get(cur, &kk, &vv, so);
        for (unsigned i = 0; rc == MDBX_SUCCESS; ++i) {
          r.val(kk), r.val(vv);
          if (i == n) break;
          rc = mdbx_cursor_get(cur, &kk, &vv, back ? MDBX_PREV : MDBX_NEXT);
        }
        r.num(rc);
        mdbx_cursor_close(cur);
        return r;
      });
      break;
    }
    case 6: { // delete some items by a cursor
      const unsigned n = 1 + c.below(12);
      const bool alldups = dup && c.chance(1, 3);
      all("cursor deletions", [&](World &x) {
        Res r;
        MDBX_cursor *cur;
        r.rc = mdbx_cursor_open(x.tx.back(), x.d[ti], &cur);
        if (r.rc) return r;
        MDBX_val kk = V(k), vv{};
        int rc = mdbx_cursor_get(cur, &kk, &vv, MDBX_SET_RANGE);
        for (unsigned i = 0; rc == MDBX_SUCCESS && i < n; ++i) {
          rc = mdbx_cursor_del(cur, alldups ? MDBX_ALLDUPS : MDBX_UPSERT);
          r.num(rc);
          if (rc == MDBX_TXN_FULL || rc == MDBX_MAP_FULL) {
            r.rc = rc;
            break;
          }
          if (rc == MDBX_SUCCESS) rc = mdbx_cursor_get(cur, &kk, &vv, MDBX_NEXT);
          if (rc == MDBX_SUCCESS) r.val(kk), r.val(vv);
        }
        r.num(rc);
        mdbx_cursor_close(cur);
        return r;
      });
      changes += n;
      break;
    }
    case 7:
      all("clear", [&](World &x) {
        Res r;
        r.rc = mdbx_drop(x.tx.back(), x.d[ti], false);
        return r;
      });
      break;
    case 8: {
      uint64_t inc = c.one<uint64_t>({1, 0, 1000, 1ull << 63});
      all("sequence", [&](World &x) {
        Res r;
        uint64_t v = 0;
        r.rc = mdbx_dbi_sequence(x.tx.back(), x.d[ti], &v, inc);
        r.num(v);
        return r;
      });
      break;
    }
    case 9: {
      MDBX_canary k2{c.bits(), c.bits(), 3, 0};
      all("canary", [&](World &x) {
        Res r;
        r.rc = mdbx_canary_put(x.tx.back(), &k2);
        return r;
      });
      break;
    }
    case 10: { // range deletion
      Bytes k1 = dm.gen_key(c);
      const bool incl = c.flip();
      all("range deletion", [&](World &x) {
        Res r;
        MDBX_cursor *a = nullptr, *b = nullptr;
        must(mdbx_cursor_open(x.tx.back(), x.d[ti], &a), "cursor_open");
        must(mdbx_cursor_open(x.tx.back(), x.d[ti], &b), "cursor_open");
        MDBX_val kk = V(k), k2 = V(k1), vv{};
        int ra = mdbx_cursor_get(a, &kk, &vv, MDBX_SET_RANGE), rb = mdbx_cursor_get(b, &k2, &vv, MDBX_SET_RANGE);
        r.num(ra), r.num(rb);
        if (!ra && !rb && mdbx_cursor_compare(a, b, false) <= 0) {
          uint64_t n = 0;
          r.rc = mdbx_cursor_delete_range(a, b, incl, &n);
          if (!r.rc) r.num(n);
        }
        mdbx_cursor_close(a), mdbx_cursor_close(b);
        return r;
      });
      changes += 3;
      break;
    }
    default: {
      const unsigned n = 2 + c.below(3);
      all("multi", [&](World &x) {
        Res r;
        if (!(dm.flags & MDBX_DUPFIXED)) return r;
        Bytes raw;
        for (unsigned i = 0; i < n; ++i) raw += dm.val_of(i * 3 % dm.nvals);
        const size_t one = raw.size() / n;
        MDBX_val kk = V(k), vv[2];
        vv[0].iov_base = &raw[0], vv[0].iov_len = one;
        vv[1].iov_base = nullptr, vv[1].iov_len = n;
        r.rc = mdbx_put(x.tx.back(), x.d[ti], &kk, vv, MDBX_MULTIPLE);
        if (!r.rc) r.num(vv[1].iov_len);
        return r;
      });
    }
    }
  }
  void run() {
    const size_t nw = 2 + c.chance(1, 3);
    nested_ok = c.chance(2, 3);
    unsigned minps = 65536;
    std::set<unsigned> kinds;
    CfgReq q;
    q.allow_writemap = !nested_ok;
    for (size_t i = 0; i < nw; ++i) {
      auto x = std::make_unique<World>();
      x->g = i ? gen_cfg(c, q) : EnvCfg();
      if (!i) x->g.flags = MDBX_NOSUBDIR;
      if (!nested_ok && i && c.flip()) x->g.flags |= MDBX_WRITEMAP, x->g.small_dp = false;
      x->g.flags &= ~(unsigned)MDBX_EXCLUSIVE;
      minps = std::min(minps, x->g.ps);
      kinds.insert(x->g.ps * 64 + ((x->g.flags & MDBX_WRITEMAP) != 0) + 2 * !!(x->g.flags & MDBX_LIFORECLAIM));
      TR(c, "env %zu: %s", i, x->g.describe().c_str());
      w.push_back(std::move(x));
    }
    const unsigned nt = 1 + c.below(3);
    for (unsigned i = 0; i < nt; ++i) {
      Table t;
      t.name = "t" + std::to_string(i);
      t.dom = gen_domain(c, gen_table_flags(c, 0), minps, 200);
      TR(c, "table %s %s", t.name.c_str(), t.dom.describe().c_str());
      tabs.push_back(t);
    }
    for (size_t i = 0; i < nw; ++i) {
      must(w[i]->e.open(c, c.dir + "/w" + std::to_string(i), w[i]->g), "open");
      open_tables(*w[i], true);
    }
    c.plan_ops(10 + c.skewed(c.thorough ? 500 : 200));
    auto begin = [&](bool nested) {
      for (auto &x : w) {
        MDBX_txn *t;
        must(mdbx_txn_begin(x->e.env, nested ? x->tx.back() : nullptr, MDBX_TXN_READWRITE, &t), "begin");
        x->tx.push_back(t);
      }
    };
    auto abort_all = [&] {
      all("abort", [&](World &x) {
        Res r;
        r.rc = mdbx_txn_abort(x.tx.back());
        x.tx.pop_back();
        return r;
      });
    };
    while (c.next_op()) {
      if (w[0]->tx.empty()) {
        if (c.chance(1, 6)) // one of the environments is reopened, or all
          for (auto &x : w)
            if (c.flip()) {
              must(x->e.close(), "close");
              EnvCfg g = x->g;
              if (c.flip()) { // in another mode
                g.flags ^= MDBX_LIFORECLAIM;
                g.flags &= ~(unsigned)MDBX_UTTERLY_NOSYNC;
                g.flags |= c.one<unsigned>({0, MDBX_NOMETASYNC, MDBX_SAFE_NOSYNC});
                if (!nested_ok && !g.small_dp) g.flags ^= MDBX_WRITEMAP;
              }
              must(x->e.open(c, x->e.path, g), "reopen");
              x->g = g;
              open_tables(*x, false);
              c.label("reopen");
            }
        if (c.chance(1, 5)) try_option(*w[1 + c.below(w.size() - 1)]);
        begin(false);
      }
      switch (c.weighted({60, 6, 5, 3, nested_ok ? 4u : 0u, 2, 2, 1})) {
      case 0: op(); break;
      case 1: {
        all("commit", [&](World &x) {
          Res r;
          r.rc = mdbx_txn_commit(x.tx.back());
          x.tx.pop_back();
          return r;
        });
        if (!txn_full) ++commits;
        txn_full = false;
        if (w[0]->tx.empty()) {
          begin(false);
          compare("after commit");
          abort_all();
        }
        break;
      }
      case 2:
        if (c.flip()) compare("inside");
        break;
      case 3: abort_all(); break;
      case 4:
        if (w[0]->tx.size() < 4) begin(true), c.label("nested");
        break;
      case 5: try_option(*w[1 + c.below(w.size() - 1)]); break;
      case 6:
        all("checkpoint", [&](World &x) {
          Res r;
          r.rc = x.tx.size() == 1 ? mdbx_txn_checkpoint(x.tx.back(), MDBX_TXN_READWRITE, nullptr) : MDBX_SUCCESS;
          return r;
        });
        break;
      default: {
        World &x = *w[c.below(w.size())];
        if (x.tx.empty() || !(x.g.flags & MDBX_SAFE_NOSYNC)) break;
      }
      }
      if (txn_full) { // the same must not be applied anywhere
        txn_full = false;
        c.label("txn-full");
        bool gone = false;
        for (auto &x : w)
          while (!x->tx.empty()) {
            int rc = mdbx_txn_abort(x->tx.back());
            (void)rc;
            x->tx.pop_back();
            gone = true;
          }
        if (!gone) return; // a commit failed in one of them: not comparable further
        begin(false);
        compare("after a full transaction");
        abort_all();
      }
    }
    while (!w[0]->tx.empty()) abort_all();
    for (auto &x : w) {
      must(x->e.close(), "close");
      must(x->e.open(c, x->e.path, x->g), "final reopen");
      open_tables(*x, false);
    }
    begin(false);
    compare("after the final reopening");
    abort_all();
    for (auto &x : w) {
      ChkResult r = run_chk(x->e.env);
      if (r.rc || r.problems) c.fail("the integrity checker: %s, %zu problems: %s", rcname(r.rc), r.problems, r.text.c_str());
      must(x->e.close(), "close");
    }
    if (kinds.size() > 1) c.label("different page sizes or modes");
    if (commits >= 3 && changes > 100 && kinds.size() > 1) c.nontrivial();
  }
};
} // namespace
void vf::run_case(Ctx &c) {
  S s(c);
  s.run();
}
