#include "cur.hpp"
using namespace kit;
const vf::Config vf::config = {
    "C05",
    "a case is one generated environment and table (up to ~1500 pairs, deep trees and deep nested trees on small pages), bystander cursors, and a "
    "sequence of range and bunch deletions at generated positions, interleaved with refills and transaction boundaries; after each deletion the count, "
    "the whole contents and the bystander cursors are compared with the model; non-trivial: at least one deletion of a proper non-empty part of more than 3 pairs",
    26000, 400000};
namespace {
struct S {
  Ctx &c;
  Db db;
  Table *t = nullptr;
  bool dead = false, nt = false;
  unsigned nested = 0;
  explicit S(Ctx &c) : c(c), db(c) {}
  const MTable &m() { return db.cur().ro(t->name); }
  void populate(size_t n) {
    const bool dup = t->dom.flags & MDBX_DUPSORT;
    const unsigned style = c.below(3);
    unsigned k0 = c.below(t->dom.nkeys), v0 = c.below(t->dom.nvals);
    size_t hot = c.below(t->dom.nkeys);
    size_t done = 0;
    for (size_t i = 0; i < n; ++i) {
      unsigned ki = style == 0 ? c.below(t->dom.nkeys) : style == 1 ? (k0 + i) % t->dom.nkeys : dup && c.chance(3, 4) ? hot : c.below(t->dom.nkeys);
      Bytes k = t->dom.key_of(ki), v = dup ? t->dom.val_of(style == 0 ? c.below(t->dom.nvals) : (v0 + i) % t->dom.nvals) : t->dom.gen_val(c);
      MDBX_val kk = V(k), vv = V(v);
      int rc = mdbx_put(db.txn(), t->dbi, &kk, &vv, MDBX_UPSERT);
      if (rc == MDBX_MAP_FULL || db.full(rc)) {
        dead = true;
        return;
      }
      db.must(rc, "mdbx_put(UPSERT)");
      MTable &w = db.cur().rw(t->name);
      w.add(k, v);
      ++done;
    }
    TR(c, "populate with %zu puts style %u -> %llu pairs of %zu keys", done, style, (unsigned long long)m().items, m().m.size());
  }
  size_t pick_pos(const View &v) {
    switch (c.below(6)) {
    case 0: return 0;
    case 1: return v.n() - 1;
    case 2: { // border of a key
      size_t i = c.below(v.n());
      return c.flip() ? v.kfirst(i) : v.kend(i) - 1;
    }
    default: return c.below(v.n());
    }
  }
  void seek(MDBX_cursor *mc, const View &v, size_t i) {
    MDBX_val k = V(v.f[i].first), d = V(v.f[i].second);
    int rc = mdbx_cursor_get(mc, &k, &d, v.dup() ? MDBX_GET_BOTH : MDBX_SET_KEY);
    db.must(rc, "seek to an existing pair");
    if (c.chance(1, 8)) { // reach it by a step instead
      if (i + 1 < v.n() && c.flip()) {
        db.must(mdbx_cursor_get(mc, &k, &d, MDBX_NEXT), "step forward");
        db.must(mdbx_cursor_get(mc, &k, &d, MDBX_PREV), "step back");
      } else if (i) {
        db.must(mdbx_cursor_get(mc, &k, &d, MDBX_PREV), "step back");
        db.must(mdbx_cursor_get(mc, &k, &d, MDBX_NEXT), "step forward");
      }
    }
  }
  void one() {
    View v(m());
    if (v.n() == 0 && c.chance(4, 5)) return populate(1 + c.skewed(600));
    MDBX_cursor *a = nullptr, *b = nullptr;
    db.must(mdbx_cursor_open(db.txn(), t->dbi, &a), "mdbx_cursor_open");
    db.must(mdbx_cursor_open(db.txn(), t->dbi, &b), "mdbx_cursor_open");
    std::vector<std::pair<MDBX_cursor *, size_t>> by;
    if (v.n())
      for (unsigned i = c.below(4); i; --i) {
        MDBX_cursor *x;
        db.must(mdbx_cursor_open(db.txn(), t->dbi, &x), "mdbx_cursor_open");
        size_t p = pick_pos(v);
        seek(x, v, p);
        by.push_back({x, p});
      }
    size_t from = 0, to = 0; // expected deletion [from, to)
    int want = MDBX_SUCCESS, want2 = MDBX_SUCCESS;
    uint64_t n = 12345;
    int rc;
    size_t ai = SIZE_MAX, bi = SIZE_MAX;
    const size_t N = v.n();
    bool usea = false, useb = false; // where a bunch deletion leaves its own cursor is not specified
    bool range = c.flip();
    if (range) {
      int shape = c.weighted({10, 3, 3, 1, 1}); // both, no begin, no end, begin fresh, end fresh
      bool incl = c.flip();
      if (!N) shape = 3 + c.below(2);
      if (N) {
        ai = pick_pos(v), bi = pick_pos(v);
        if (c.chance(1, 4)) bi = ai + c.below(std::min<size_t>(6, N - ai));
        if (bi < ai && c.chance(9, 10)) std::swap(ai, bi);
      }
      MDBX_cursor *pa = shape == 1 ? nullptr : a, *pb = shape == 2 ? nullptr : b;
      if (shape == 1) ai = 0;
      if (shape == 2) bi = N ? N - 1 : SIZE_MAX;
      if (shape == 3 && c.flip()) pb = nullptr;
      if (shape == 4 && c.flip()) pa = nullptr;
      if (pa && shape != 3 && N) seek(a, v, ai);
      if (pb && shape != 4 && N) seek(b, v, bi);
      if (shape >= 3)
        want = want2 = MDBX_ENODATA;
      else if (ai > bi)
        want = want2 = MDBX_ENODATA;
      else
        from = ai, to = bi + incl;
      usea = pa, useb = pb;
      rc = mdbx_cursor_delete_range(pa, pb, incl, c.chance(1, 16) ? nullptr : &n);
      TR(c, "delete_range [%s%zd, %s%zd%s of %zu -> %s, %llu", pa ? "" : "null ", (ssize_t)ai, pb ? "" : "null ", (ssize_t)bi, incl ? "]" : ")", N, rcname(rc), (unsigned long long)n);
      c.label(shape == 0 ? (v.dup() && ai <= bi && N && v.ck(v.f[ai].first, v.f[bi].first) == 0 ? "range within a key" : "range") : shape < 3 ? "half-open range" : "unpositioned");
    } else {
      int act = c.below(11);
      const bool fresh = !N || c.chance(1, 20);
      if (!fresh) {
        ai = pick_pos(v);
        seek(a, v, ai);
        switch (act) {
        case MDBX_DELETE_CURRENT_VALUE: from = ai, to = ai + 1; break;
        case MDBX_DELETE_CURRENT_MULTIVAL_BEFORE_EXCLUDING: from = v.kfirst(ai), to = ai; break;
        case MDBX_DELETE_CURRENT_MULTIVAL_BEFORE_INCLUDING: from = v.kfirst(ai), to = ai + 1; break;
        case MDBX_DELETE_CURRENT_MULTIVAL_AFTER_INCLUDING: from = ai, to = v.kend(ai); break;
        case MDBX_DELETE_CURRENT_MULTIVAL_AFTER_EXCLUDING: from = ai + 1, to = v.kend(ai); break;
        case MDBX_DELETE_CURRENT_MULTIVAL_ALL: from = v.kfirst(ai), to = v.kend(ai); break;
        case MDBX_DELETE_BEFORE_EXCLUDING: from = 0, to = ai; break;
        case MDBX_DELETE_BEFORE_INCLUDING: from = 0, to = ai + 1; break;
        case MDBX_DELETE_AFTER_INCLUDING: from = ai, to = N; break;
        case MDBX_DELETE_AFTER_EXCLUDING: from = ai + 1, to = N; break;
        default: from = 0, to = N; break;
        }
      } else if (act == MDBX_DELETE_WHOLE)
        from = 0, to = N; // does not depend on the position
      else
        want = want2 = MDBX_ENODATA;
      rc = mdbx_cursor_bunch_delete(a, (MDBX_bunch_action_t)act, c.chance(1, 16) ? nullptr : &n);
      TR(c, "bunch_delete action %d at %zd of %zu -> %s, %llu", act, (ssize_t)ai, N, rcname(rc), (unsigned long long)n);
      c.label(fresh ? "unpositioned" : "bunch");
    }
    if (from > to) from = to;
    if (rc == MDBX_MAP_FULL || db.full(rc)) {
      dead = true;
    } else {
      if (rc != want && rc != want2)
        c.fail("%s returned %s, expected %s", range ? "mdbx_cursor_delete_range" : "mdbx_cursor_bunch_delete", rcname(rc), rcname(want));
      if (rc == MDBX_SUCCESS && n != 12345 && n != to - from) c.fail("%llu pairs reported as removed, expected %zu", (unsigned long long)n, to - from);
      if (rc != MDBX_SUCCESS && n != 12345 && n != 0) c.fail("%llu pairs reported as removed by a refused call", (unsigned long long)n);
      if (from < to) {
        if (to - from > 3 && to - from < N) nt = true;
        c.label(to - from == N ? "whole" : to - from > 200 ? "many" : to - from > 20 ? "tens" : "few");
        MTable &w = db.cur().rw(t->name);
        if (to - from == N)
          w.clear();
        else
          for (size_t i = from; i < to; ++i) {
            if (v.dup())
              w.del(v.f[i].first, v.f[i].second);
            else
              w.del(v.f[i].first);
          }
      }
      // bystanders first (a scan of its own must not disturb them either)
      View nv(m());
      for (auto &x : by) {
        MDBX_val k{}, d{};
        if (x.second < from || x.second >= to) {
          rc = mdbx_cursor_get(x.first, &k, &d, MDBX_GET_CURRENT);
          if (rc || !eqv(k, v.f[x.second].first) || !eqv(d, v.f[x.second].second))
            c.fail("a cursor at pair %zu (not deleted) returns %s %s = %s instead of %s = %s", x.second, rcname(rc), rc ? "" : show(B(k)).c_str(), rc ? "" : show(B(d)).c_str(),
                   show(v.f[x.second].first).c_str(), show(v.f[x.second].second).c_str());
          // and its neighbours
          const bool fwd = c.flip();
          size_t ni = x.second < from ? x.second : x.second - (to - from);
          rc = mdbx_cursor_get(x.first, &k, &d, fwd ? MDBX_NEXT : MDBX_PREV);
          const bool end = fwd ? ni + 1 >= nv.n() : ni == 0;
          const size_t q = fwd ? ni + 1 : ni - 1;
          if (end ? rc != MDBX_NOTFOUND : rc || !eqv(k, nv.f[q].first) || !eqv(d, nv.f[q].second))
            c.fail("a cursor at pair %zu stepped %s to a wrong pair: %s %s", x.second, fwd ? "forward" : "back", rcname(rc), rc ? "" : show(B(k)).c_str());
        } else {
          rc = mdbx_cursor_get(x.first, &k, &d, MDBX_NEXT);
          // the pair after the deleted ones
          if (from >= nv.n() ? rc != MDBX_NOTFOUND && rc != MDBX_ENODATA : rc || !eqv(k, nv.f[from].first) || !eqv(d, nv.f[from].second))
            c.fail("a cursor at a deleted pair (%zu) steps to %s %s = %s instead of #%zu %s", x.second, rcname(rc), rc ? "" : show(B(k)).c_str(), rc ? "" : show(B(d)).c_str(), from,
                   from < nv.n() ? show(nv.f[from].first).c_str() : "end");
        }
      }
      // the cursors the call was made with
      for (int w = 0; w < 2; ++w) {
        const size_t at = w ? bi : ai;
        MDBX_cursor *x = w ? b : a;
        if (want != MDBX_SUCCESS || from == to || at == SIZE_MAX || at >= N || (w ? !useb : !usea)) continue;
        MDBX_val k{}, d{};
        const bool gone = at >= from && at < to;
        const size_t ni = at < from ? at : at - (to - from);
        rc = mdbx_cursor_get(x, &k, &d, gone ? MDBX_NEXT : MDBX_GET_CURRENT);
        if (w && !gone) continue; // the end cursor is used up as a working one (not specified)
        size_t q = gone ? from : ni;
        // the first cursor may have been moved onto the following pair already
        if (gone && !w && (q + 1 >= nv.n() ? rc == MDBX_NOTFOUND : !rc && eqv(k, nv.f[q + 1].first) && eqv(d, nv.f[q + 1].second))) continue;
        if (q >= nv.n() ? rc != MDBX_NOTFOUND && rc != MDBX_ENODATA : rc || !eqv(k, nv.f[q].first) || !eqv(d, nv.f[q].second))
          c.fail("the %s cursor, put at pair %zu (%s), then gives %s %s = %s instead of #%zu %s", w ? "second" : "first", at, gone ? "deleted" : "kept", rcname(rc), rc ? "" : show(B(k)).c_str(),
                 rc ? "" : show(B(d)).c_str(), q, q < nv.n() ? (show(nv.f[q].first) + " = " + show(nv.f[q].second)).c_str() : "end");
      }
      db.check_table(db.txn(), t->dbi, m(), "after the deletion", c.chance(1, 3));
    }
    for (auto &x : by) mdbx_cursor_close(x.first);
    mdbx_cursor_close(a);
    mdbx_cursor_close(b);
  }
  // cursors of different tables do not make a range
  void strangers() {
    if (db.tabs.size() < 2) return;
    Table &x = db.tabs[0], &y = db.tabs[1];
    MDBX_cursor *a, *b;
    db.must(mdbx_cursor_open(db.txn(), x.dbi, &a), "mdbx_cursor_open");
    db.must(mdbx_cursor_open(db.txn(), y.dbi, &b), "mdbx_cursor_open");
    MDBX_val k{}, d{};
    uint64_t n = 5;
    if (mdbx_cursor_get(a, &k, &d, MDBX_FIRST) == MDBX_SUCCESS && mdbx_cursor_get(b, &k, &d, c.flip() ? MDBX_FIRST : MDBX_LAST) == MDBX_SUCCESS) {
      const bool swap = c.flip();
      db.expect(mdbx_cursor_delete_range(swap ? b : a, swap ? a : b, c.flip(), &n), MDBX_EINVAL, "mdbx_cursor_delete_range over different tables");
      if (n) c.fail("a refused mdbx_cursor_delete_range reports %llu pairs", (unsigned long long)n);
      c.label("different tables");
    }
    mdbx_cursor_close(a);
    mdbx_cursor_close(b);
    db.check_table(db.txn(), x.dbi, db.cur().ro(x.name), "after a refused range deletion");
    db.check_table(db.txn(), y.dbi, db.cur().ro(y.name), "after a refused range deletion");
  }
  void reap() { // the transaction got full: nothing but an abort
    if (dead) db.abort();
    dead = false;
  }
  void run() {
    CfgReq r;
    EnvCfg cfg = gen_cfg(c, r);
    db.open_env(cfg);
    db.make_tables(1 + c.below(2), c.one<int>({0, 1, 2, 2}), c.thorough ? 1500 : 700, true);
    t = &db.tabs[c.below(db.tabs.size())];
    c.plan_ops(4 + c.skewed(c.thorough ? 60 : 30));
    db.begin();
    populate(c.skewed(c.thorough ? 3000 : 1500));
    reap();
    while (c.next_op()) {
      if (db.tx.empty()) {
        t = &db.tabs[c.below(db.tabs.size())];
        db.begin(c.one<unsigned>({0, 0, 0, MDBX_TXN_NOSYNC}));
      }
      switch (c.weighted({32, 12, 4, 6, 4, 2, 1})) {
      case 6: strangers(); break;
      case 0: one(); break;
      case 1: populate(1 + c.skewed(400)); break;
      case 2:
        if (!(db.cfg.flags & MDBX_WRITEMAP) && db.tx.size() < 3) db.begin_nested();
        break;
      case 3: db.commit(); break;
      case 4:
        db.abort();
        if (!db.tx.empty()) db.check_current("after a nested abort");
        break;
      case 5:
        if (!db.op_bulk(*t, 60)) dead = true;
        break;
      }
      reap();
    }
    while (!db.tx.empty()) db.commit();
    db.check_committed("at the end");
    if (c.chance(1, 4)) mdbx_env_sync_ex(db.env, true, false), db.env_chk("at the end");
    if (nt) c.nontrivial();
  }
};
} // namespace
void vf::run_case(Ctx &c) {
  S s(c);
  s.run();
}
