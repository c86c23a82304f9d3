#include "hist.hpp"
#include "parse.hpp"
#include <sys/stat.h>
using namespace kit;
const vf::Config vf::config = {
    "C14",
    "a case is one generated configuration and a history of data operations, table life cycles, nested transactions, checkpoints, aborts, geometry "
    "changes, pinned readers and reopenings; at moments inside dirty and nested transactions, just before commits, in fresh and pinned readers and after "
    "reopening the statistics, counts, information and numbers reported by the library are compared with the model and with the counts of an "
    "independent parser of the file; non-trivial: at least three moments, one of them dirty, and a table of height 2 or more or a nested tree seen",
    22000, 400000};
namespace {
using FP = std::shared_ptr<parse::File>;
struct S : hist::H {
  using H::H;
  unsigned moments = 0, dirty = 0;
  bool rich = false;
  FP last;                               // parsed recent snapshot
  std::map<uint64_t, FP> snaps;          // of pinned readers
  std::map<Bytes, MDBX_stat> pre;        // just before a commit
  Model before;                          // committed contents of the previous parsed snapshot
  bool have_pre = false;
  void configure(EnvCfg &g) override {
    H::configure(g);
    if (g.flags & MDBX_NOSTICKYTHREADS) max_readers = 3;
    w = {40, 8, 6, 12, 4, 2, 1, 4, 2, 1, 1, 0, 8, 5, 2};
  }
  void same_tree(const MDBX_stat &s, const parse::Table &t, const char *where, const Bytes &n, bool mod) {
    if (s.ms_depth != t.real.height || s.ms_branch_pages != t.real.branch || s.ms_leaf_pages != t.real.leaf || s.ms_overflow_pages != t.real.large || s.ms_entries != t.real.items)
      c.fail("%s: table '%s' is reported with depth %u, pages %llu+%llu+%llu, %llu items; it has %u, %u+%u+%u, %llu", where, show(n).c_str(), s.ms_depth, (unsigned long long)s.ms_branch_pages,
             (unsigned long long)s.ms_leaf_pages, (unsigned long long)s.ms_overflow_pages, (unsigned long long)s.ms_entries, t.real.height, t.real.branch, t.real.leaf, t.real.large,
             (unsigned long long)t.real.items);
    if (mod && s.ms_mod_txnid != t.tree.mod)
      c.fail("%s: table '%s' is reported as modified by txn %llu, it is %llu", where, show(n).c_str(), (unsigned long long)s.ms_mod_txnid, (unsigned long long)t.tree.mod);
    if (s.ms_depth > 1) rich = true;
  }
  const parse::Table *find(const parse::File &f, const Bytes &n) {
    if (n.empty()) return &f.main;
    auto it = f.tables.find(n);
    return it == f.tables.end() ? nullptr : &it->second;
  }
  void counts(MDBX_txn *t, MDBX_dbi dbi, const MTable &m, const parse::Table *pt, const char *where, const Bytes &n) {
    if (m.m.empty()) return;
    MDBX_cursor *cu;
    db.must(mdbx_cursor_open(t, dbi, &cu), "mdbx_cursor_open");
    for (unsigned i = 0; i < 4; ++i) {
      auto it = m.m.begin();
      std::advance(it, c.below(m.m.size()));
      MDBX_val k = V(it->first), v;
      db.must(mdbx_cursor_get(cu, &k, &v, MDBX_SET_KEY), "mdbx_cursor_get(SET_KEY)");
      if (m.dup() && c.flip()) mdbx_cursor_get(cu, &k, &v, c.flip() ? MDBX_LAST_DUP : MDBX_NEXT_DUP);
      size_t cnt = 0;
      MDBX_stat st;
      memset(&st, 0x5a, sizeof st);
      db.must(mdbx_cursor_count_ex(cu, &cnt, &st, sizeof st), "mdbx_cursor_count_ex");
      if (cnt != it->second.size()) c.fail("%s: table '%s': %zu values are reported at %s, there are %zu", where, show(n).c_str(), cnt, show(it->first).c_str(), it->second.size());
      if (cnt > 1 && st.ms_entries != cnt) c.fail("%s: table '%s': nested statistics report %llu items at %s, there are %zu", where, show(n).c_str(), (unsigned long long)st.ms_entries, show(it->first).c_str(), cnt);
      size_t c2 = 0;
      db.must(mdbx_cursor_count(cu, &c2), "mdbx_cursor_count");
      if (c2 != cnt) c.fail("%s: mdbx_cursor_count gives %zu, mdbx_cursor_count_ex %zu", where, c2, cnt);
      if (pt && cnt > 1) {
        auto nt = pt->nested.find(it->first);
        if (nt == pt->nested.end()) c.fail("%s: key %s has %zu values but no nested tree in the file", where, show(it->first).c_str(), cnt);
        const parse::Tree &r = nt->second;
        if (r.root != 0xffffffff) {
          if (st.ms_depth != r.height || st.ms_branch_pages != r.branch || st.ms_leaf_pages != r.leaf || st.ms_overflow_pages)
            c.fail("%s: nested tree of %s is reported with depth %u, pages %llu+%llu+%llu; it has %u, %u+%u", where, show(it->first).c_str(), st.ms_depth, (unsigned long long)st.ms_branch_pages,
                   (unsigned long long)st.ms_leaf_pages, (unsigned long long)st.ms_overflow_pages, r.height, r.branch, r.leaf);
          if (st.ms_mod_txnid != r.mod) c.fail("%s: nested tree of %s is reported as modified by %llu, it is %llu", where, show(it->first).c_str(), (unsigned long long)st.ms_mod_txnid, (unsigned long long)r.mod);
          if (st.ms_psize != f_ps()) c.fail("%s: page size %u of a nested tree", where, st.ms_psize);
          rich = true;
          c.label("nested-tree");
        } else if (st.ms_depth || st.ms_branch_pages)
          c.fail("%s: a sub-page of %s is reported with depth %u and %llu branch pages", where, show(it->first).c_str(), st.ms_depth, (unsigned long long)st.ms_branch_pages);
      }
    }
    mdbx_cursor_close(cu);
  }
  unsigned f_ps() const { return db.cfg.ps; }
  // the handles of every table of the snapshot that can be opened; f is set for committed snapshots
  void look(MDBX_txn *t, const Model &m, const parse::File *f, const char *where, bool dyn, std::map<Bytes, MDBX_stat> *out = nullptr) {
    ++moments;
    auto one = [&](const Bytes &n, MDBX_dbi d, const MTable &mt) {
      MDBX_stat s;
      memset(&s, 0x5a, sizeof s);
      db.must(mdbx_dbi_stat(t, d, &s, sizeof s), "mdbx_dbi_stat");
      const unsigned long long want = mt.items;
      if (s.ms_psize != db.cfg.ps) c.fail("%s: page size %u is reported", where, s.ms_psize);
      if (s.ms_entries != want) c.fail("%s: table '%s' is reported with %llu items, it has %llu", where, show(n).c_str(), (unsigned long long)s.ms_entries, want);
      if ((s.ms_depth == 0) != (want == 0) || (s.ms_leaf_pages == 0) != (want == 0) || (s.ms_branch_pages == 0) != (s.ms_depth < 2 && s.ms_branch_pages == 0))
        c.fail("%s: table '%s' of %llu items is reported with depth %u and %llu+%llu pages", where, show(n).c_str(), want, s.ms_depth, (unsigned long long)s.ms_branch_pages, (unsigned long long)s.ms_leaf_pages);
      const parse::Table *pt = f ? find(*f, n) : nullptr;
      if (f && !pt) c.fail("%s: table '%s' is not in the file", where, show(n).c_str());
      if (pt) same_tree(s, *pt, where, n, true);
      if (out) (*out)[n] = s;
      unsigned fl = 0, state = 0;
      db.must(mdbx_dbi_flags_ex(t, d, &fl, &state), "mdbx_dbi_flags_ex");
      if (fl != mt.flags) c.fail("%s: table '%s' is reported with flags %x, it has %x", where, show(n).c_str(), fl, mt.flags);
      if (c.flip()) counts(t, d, mt, pt, where, n);
    };
    for (auto &tb : db.tabs) one(tb.name, tb.dbi, m.ro(tb.name));
    bool all = true;
    if (dyn && !mainonly)
      for (int i = 0; i < 4; ++i) {
        Bytes n = "x" + std::to_string(i);
        auto it = m.t.find(n);
        if (it == m.t.end()) continue;
        if (c.chance(1, 3)) continue;
        MDBX_dbi d = 0;
        int rc = mdbx_dbi_open(t, n.c_str(), MDBX_DB_ACCEDE, &d);
        if (rc == MDBX_INCOMPATIBLE && other_flags(n, it->second->flags)) continue;
        db.must(rc, "mdbx_dbi_open");
        one(n, d, *it->second);
      }
    (void)all;
    // the whole environment
    MDBX_stat s;
    memset(&s, 0x5a, sizeof s);
    db.must(mdbx_env_stat_ex(db.env, t, &s, sizeof s), "mdbx_env_stat_ex");
    uint64_t items = 0, named = 0;
    for (auto &e : m.t) items += e.second->items, named += !e.first.empty();
    if (s.ms_entries != items + named) c.fail("%s: the environment is reported with %llu items, there are %llu and %llu tables", where, (unsigned long long)s.ms_entries, (unsigned long long)items, (unsigned long long)named);
    if (f) {
      uint64_t br = f->main.real.branch, lf = f->main.real.leaf, lg = f->main.real.large, depth = f->main.real.height, mod = f->main.tree.mod;
      for (auto &e : f->tables) {
        br += e.second.real.branch, lf += e.second.real.leaf, lg += e.second.real.large, depth = std::max<uint64_t>(depth, e.second.real.height);
        mod = std::max(mod, e.second.tree.mod);
      }
      if (s.ms_branch_pages != br || s.ms_leaf_pages != lf || s.ms_overflow_pages != lg || s.ms_depth < depth)
        c.fail("%s: the environment is reported with depth %u, pages %llu+%llu+%llu; it has %llu, %llu+%llu+%llu", where, s.ms_depth, (unsigned long long)s.ms_branch_pages, (unsigned long long)s.ms_leaf_pages,
               (unsigned long long)s.ms_overflow_pages, (unsigned long long)depth, (unsigned long long)br, (unsigned long long)lf, (unsigned long long)lg);
      if (s.ms_mod_txnid != mod) c.fail("%s: the environment is reported as modified by txn %llu, the last modification is of %llu", where, (unsigned long long)s.ms_mod_txnid, (unsigned long long)mod);
    }
  }
  void info(MDBX_txn *t, const parse::File &f, const char *where) { // f is the recent snapshot; t a reader of it, or nothing
    const parse::Meta &h = f.meta[f.head];
    MDBX_envinfo e;
    memset(&e, 0x5a, sizeof e);
    db.must(mdbx_env_info_ex(db.env, t, &e, sizeof e), "mdbx_env_info_ex");
    const uint64_t ps = f.ps;
    auto eq = [&](const char *what, uint64_t got, uint64_t want) {
      if (got != want) c.fail("%s: %s is reported as %llu, it is %llu", where, what, (unsigned long long)got, (unsigned long long)want);
    };
    auto pv = [](uint16_t v) -> uint64_t { // floating form of page counts
      if ((v & 0x8001) != 0x8001) return v;
      return ~0ull;
    };
    eq("the recent transaction", e.mi_recent_txnid, h.txnid);
    eq("the last page", e.mi_last_pgno, h.next - 1);
    eq("the lower size", e.mi_geo.lower, h.lower * ps);
    eq("the upper size", e.mi_geo.upper, h.upper * ps);
    eq("the current size", e.mi_geo.current, h.now * ps);
    if (pv(h.grow_pv) != ~0ull) eq("the growth step", e.mi_geo.grow, pv(h.grow_pv) * ps);
    if (pv(h.shrink_pv) != ~0ull) eq("the shrink threshold", e.mi_geo.shrink, pv(h.shrink_pv) * ps);
    eq("the page size", e.mi_dxb_pagesize, ps);
    for (int i = 0; i < 3; ++i)
      if (f.meta[i].ok) {
        eq("the transaction of a root", e.mi_meta_txnid[i], f.meta[i].txnid);
        eq("the sign of a root", e.mi_meta_sign[i], f.meta[i].sign);
        if (memcmp(&e.mi_bootid.meta[i], f.meta[i].bootid, 16)) c.fail("%s: boot-id of root %d differs", where, i);
      }
    if (memcmp(&e.mi_dxbid, f.meta[0].dxbid, 16)) c.fail("%s: the id of the file differs", where);
    struct stat st;
    if (stat(dxb(db.cfg, db.path).c_str(), &st)) c.inconclusive("stat failed");
    eq("the file size", e.mi_dxb_fsize, st.st_size);
    if (e.mi_mapsize < e.mi_geo.current) c.fail("%s: the map is of %llu bytes, the data of %llu", where, (unsigned long long)e.mi_mapsize, (unsigned long long)e.mi_geo.current);
    uint64_t latter = h.txnid;
    for (auto &r : readers) latter = std::min(latter, r.id);
    eq("the oldest reader", e.mi_latter_reader_txnid, latter);
    eq("the oldest own reader", e.mi_self_latter_reader_txnid, latter);
    unsigned fl = 0;
    db.must(mdbx_env_get_flags(db.env, &fl), "mdbx_env_get_flags");
    if (t) {
      MDBX_txn_info ti;
      memset(&ti, 0x5a, sizeof ti);
      db.must(mdbx_txn_info(t, &ti, c.flip()), "mdbx_txn_info");
      eq("txn_id", ti.txn_id, h.txnid);
      eq("txn_reader_lag", ti.txn_reader_lag, 0);
      eq("txn_space_used", ti.txn_space_used, h.next * ps);
      eq("txn_space_limit_soft", ti.txn_space_limit_soft, h.now * ps);
      eq("txn_space_limit_hard", ti.txn_space_limit_hard, h.upper * ps);
      eq("txn_space_leftover", ti.txn_space_leftover, (h.now - h.next) * ps);
      eq("mdbx_txn_id", mdbx_txn_id(t), h.txnid);
    }
  }
  void parse_now(const char *where) {
    last = std::make_shared<parse::File>(parse::read(parse::load(dxb(db.cfg, db.path))));
    if (!last->problems.empty()) c.fail("%s: %s", where, last->first().c_str());
  }
  void boundary(const char *where) override {
    FP old = last;
    parse_now(where);
    const uint64_t id = last->meta[last->head].txnid;
    if (have_pre && old && old->meta[old->head].txnid == id) have_pre = false; // the commit failed, or there was nothing to commit
    if (have_pre) {
      for (auto &e : pre) {
        const parse::Table *t = find(*last, e.first);
        if (!t) c.fail("%s: table '%s' is not in the file", where, show(e.first).c_str());
        same_tree(e.second, *t, "just before the commit", e.first, false);
      }
      pre.clear(), have_pre = false;
      c.label("before-commit");
    }
    if (old)
      for (auto &e : db.st[0].t) {
        auto b = before.t.find(e.first);
        const parse::Table *o = find(*old, e.first), *n = find(*last, e.first);
        if (b == before.t.end() || !o || !n) continue;
        if (!touched.count(e.first) && !e.first.empty()) {
          if (o->tree.mod != n->tree.mod || o->tree.root != n->tree.root) c.fail("%s: table '%s' was not changed but its record says txn %llu instead of %llu", where, show(e.first).c_str(), (unsigned long long)n->tree.mod, (unsigned long long)o->tree.mod);
        } else if (old->meta[old->head].txnid != id && (b->second->m != e.second->m || b->second->seq != e.second->seq)) {
          if (n->tree.mod <= o->tree.mod || n->tree.mod > id) c.fail("%s: table '%s' was changed by txn %llu at most, its record says %llu and said %llu", where, show(e.first).c_str(), (unsigned long long)id, (unsigned long long)n->tree.mod, (unsigned long long)o->tree.mod);
        }
      }
    before = db.st[0];
    touched.clear();
    MDBX_txn *t;
    db.must(mdbx_txn_begin(db.env, nullptr, MDBX_TXN_RDONLY, &t), "mdbx_txn_begin(RDONLY)");
    look(t, db.st[0], last.get(), where, true);
    info(c.flip() ? t : nullptr, *last, where);
    db.must(mdbx_txn_abort(t), "abort of a read transaction");
  }
  void inside(const char *where) override {
    ++dirty;
    look(db.txn(), db.cur(), nullptr, where, true);
    MDBX_envinfo e;
    db.must(mdbx_env_info_ex(db.env, db.txn(), &e, sizeof e), "mdbx_env_info_ex");
    MDBX_txn_info ti;
    db.must(mdbx_txn_info(db.txn(), &ti, c.flip()), "mdbx_txn_info");
    if (ti.txn_id != mdbx_txn_id(db.txn())) c.fail("%s: txn_info says %llu, txn_id %llu", where, (unsigned long long)ti.txn_id, (unsigned long long)mdbx_txn_id(db.txn()));
    if (e.mi_last_pgno + 1 != ti.txn_space_used / db.cfg.ps) c.fail("%s: the last page is %llu, the space used %llu", where, (unsigned long long)e.mi_last_pgno, (unsigned long long)ti.txn_space_used);
    if (ti.txn_space_used > ti.txn_space_limit_soft || ti.txn_space_limit_soft > ti.txn_space_limit_hard)
      c.fail("%s: space used %llu, limits %llu and %llu", where, (unsigned long long)ti.txn_space_used, (unsigned long long)ti.txn_space_limit_soft, (unsigned long long)ti.txn_space_limit_hard);
  }
  void before_commit() override {
    if (db.tx.size() == 1 && c.flip()) {
      pre.clear();
      look(db.txn(), db.cur(), nullptr, "just before a commit", true, &pre);
      have_pre = true;
      ++dirty;
    }
  }
  void finish() override {
    // the information read before opening
    EnvCfg g = db.cfg;
    db.must(db.close(), "close");
    parse_now("after closing");
    MDBX_envinfo e;
    memset(&e, 0x5a, sizeof e);
    db.must(mdbx_preopen_snapinfo(db.path.c_str(), &e, sizeof e), "mdbx_preopen_snapinfo");
    const parse::Meta &h = last->meta[last->head];
    if (e.mi_recent_txnid != h.txnid || e.mi_last_pgno != h.next - 1 || e.mi_geo.current != (uint64_t)h.now * last->ps || e.mi_geo.upper != (uint64_t)h.upper * last->ps ||
        e.mi_geo.lower != (uint64_t)h.lower * last->ps || e.mi_dxb_pagesize != last->ps)
      c.fail("mdbx_preopen_snapinfo reports txn %llu, last page %llu, size %llu (%llu..%llu), page size %u; the file has %llu, %u, %u (%u..%u) pages, %u", (unsigned long long)e.mi_recent_txnid,
             (unsigned long long)e.mi_last_pgno, (unsigned long long)e.mi_geo.current, (unsigned long long)e.mi_geo.lower, (unsigned long long)e.mi_geo.upper, e.mi_dxb_pagesize, (unsigned long long)h.txnid,
             h.next - 1, h.now, h.lower, h.upper, last->ps);
    db.must(db.Env::open(c, db.path, g), "open after preopen");
    db.reopen_tables();
  }
};
} // namespace
void vf::run_case(Ctx &c) {
  S s(c);
  s.run();
  if (s.moments > 2 && s.dirty && s.rich) c.nontrivial();
}
