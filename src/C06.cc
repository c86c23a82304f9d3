#include "cur.hpp"
using namespace kit;
const vf::Config vf::config = {
    "C06",
    "a case is one generated environment and table (up to ~1500 pairs, deep and nested trees) read in a read or a write transaction by a generated sequence of "
    "distance, scroll, distribute and estimation calls at generated positions; results are compared with index arithmetic over the sorted contents; "
    "non-trivial: at least 5 exact distance/scroll/distribute results between different positions of a table of more than 8 pairs",
    60000, 800000};
namespace {
struct S {
  Ctx &c;
  Db db;
  Table *t = nullptr;
  std::unique_ptr<View> v;
  MDBX_txn *txn = nullptr;
  size_t good = 0;
  explicit S(Ctx &c) : c(c), db(c) {}
  const MTable &m() { return db.cur().ro(t->name); }
  bool populate(size_t n) {
    const bool dup = t->dom.flags & MDBX_DUPSORT;
    const unsigned style = c.below(3);
    unsigned k0 = c.below(t->dom.nkeys), v0 = c.below(t->dom.nvals);
    size_t hot = c.below(t->dom.nkeys);
    for (size_t i = 0; i < n; ++i) {
      unsigned ki = style == 0 ? c.below(t->dom.nkeys) : style == 1 ? (k0 + i) % t->dom.nkeys : dup && c.chance(3, 4) ? hot : c.below(t->dom.nkeys);
      Bytes k = t->dom.key_of(ki), d = dup ? t->dom.val_of(style == 0 ? c.below(t->dom.nvals) : (v0 + i) % t->dom.nvals) : t->dom.gen_val(c);
      MDBX_val kk = V(k), vv = V(d);
      int rc = mdbx_put(db.txn(), t->dbi, &kk, &vv, MDBX_UPSERT);
      if (rc == MDBX_MAP_FULL || db.full(rc)) return false;
      db.must(rc, "mdbx_put(UPSERT)");
      db.cur().rw(t->name).add(k, d);
    }
    return true;
  }
  size_t pick_pos() {
    const size_t n = v->n();
    switch (c.below(6)) {
    case 0: return 0;
    case 1: return n - 1;
    case 2: {
      size_t i = c.below(n);
      return c.flip() ? v->kfirst(i) : v->kend(i) - 1;
    }
    default: return c.below(n);
    }
  }
  MDBX_cursor *open() {
    MDBX_cursor *x;
    db.must(mdbx_cursor_open(txn, t->dbi, &x), "mdbx_cursor_open");
    return x;
  }
  void seek(MDBX_cursor *mc, size_t i) {
    MDBX_val k = V(v->f[i].first), d = V(v->f[i].second);
    db.must(mdbx_cursor_get(mc, &k, &d, v->dup() ? MDBX_GET_BOTH : MDBX_SET_KEY), "seek to an existing pair");
    if (i + 1 < v->n() && c.chance(1, 8)) {
      db.must(mdbx_cursor_get(mc, &k, &d, MDBX_NEXT), "step forward");
      db.must(mdbx_cursor_get(mc, &k, &d, MDBX_PREV), "step back");
    }
  }
  void at(MDBX_cursor *mc, size_t i, const char *what) {
    MDBX_val k{}, d{};
    int rc = mdbx_cursor_get(mc, &k, &d, MDBX_GET_CURRENT);
    if (rc || !eqv(k, v->f[i].first) || !eqv(d, v->f[i].second))
      c.fail("%s: the cursor is at %s %s = %s instead of #%zu of %zu: %s = %s", what, rcname(rc), rc ? "" : show(B(k)).c_str(), rc ? "" : show(B(d)).c_str(), i, v->n(),
             show(v->f[i].first).c_str(), show(v->f[i].second).c_str());
  }
  unsigned deep() { return c.one<unsigned>({INT_MAX, INT_MAX, 42, 64, UINT_MAX}); }
  void distance() {
    MDBX_cursor *a = open(), *b = open();
    size_t i = pick_pos(), j = c.chance(1, 6) ? i : pick_pos();
    int shape = c.weighted({10, 2, 2, 1});
    if (shape == 3) { // not positioned
      seek(b, j);
      intptr_t d = 0;
      int rc = c.flip() ? mdbx_cursor_distance(a, b, &d, deep()) : mdbx_cursor_distance(b, a, &d, deep());
      db.expect(rc, MDBX_ENODATA, "mdbx_cursor_distance with an unpositioned cursor");
    } else {
      if (shape == 1) i = 0;
      if (shape == 2) j = v->n() - 1;
      if (shape != 1) seek(a, i);
      if (shape != 2) seek(b, j);
      intptr_t d = 777777;
      int rc = mdbx_cursor_distance(shape == 1 ? nullptr : a, shape == 2 ? nullptr : b, &d, deep());
      TR(c, "distance %s%zu %s%zu of %zu -> %s, %zd", shape == 1 ? "null=" : "", i, shape == 2 ? "null=" : "", j, v->n(), rcname(rc), (ssize_t)d);
      db.must(rc, "mdbx_cursor_distance");
      if (d != (intptr_t)j - (intptr_t)i) c.fail("mdbx_cursor_distance from pair %zu to %zu of %zu is %zd", i, j, v->n(), (ssize_t)d);
      if (i != j) ++good, c.label("distance");
      if (shape != 1) at(a, i, "after mdbx_cursor_distance");
      if (shape != 2) at(b, j, "after mdbx_cursor_distance");
    }
    mdbx_cursor_close(a), mdbx_cursor_close(b);
  }
  void scroll() {
    MDBX_cursor *a = open();
    const size_t n = v->n();
    size_t i = pick_pos();
    seek(a, i);
    for (unsigned r = 1 + c.below(3); r; --r) {
      intptr_t k;
      switch (c.below(5)) {
      case 0: k = (intptr_t)pick_pos() - (intptr_t)i; break;
      case 1: k = (intptr_t)c.below(6) - 3; break;
      case 2: k = (intptr_t)n - (intptr_t)i - 1 + c.below(3); break;
      case 3: k = -(intptr_t)i - 1 + c.below(3); break;
      default: k = (intptr_t)c.below(n + 2) * (c.flip() ? 1 : -1);
      }
      int rc = mdbx_cursor_scroll(a, k, deep());
      TR(c, "scroll from %zu of %zu by %zd -> %s", i, n, (ssize_t)k, rcname(rc));
      const intptr_t to = (intptr_t)i + k;
      if (to < 0 || to >= (intptr_t)n) {
        db.expect(rc, MDBX_NOTFOUND, "mdbx_cursor_scroll beyond the data");
        c.label("scroll to the end");
        settle(a, to > 0);
        break;
      }
      db.must(rc, "mdbx_cursor_scroll");
      i = to;
      at(a, i, "after mdbx_cursor_scroll");
      if (k) ++good, c.label("scroll");
      if (c.chance(1, 3)) {
        // and the cursor works on
        MDBX_val kk{}, d{};
        bool fwd = c.flip();
        rc = mdbx_cursor_get(a, &kk, &d, fwd ? MDBX_NEXT : MDBX_PREV);
        if (fwd ? i + 1 >= n : i == 0) {
          db.expect(rc, MDBX_NOTFOUND, "a step from the end of data after a scroll");
          break;
        }
        db.must(rc, "a step after a scroll");
        i += fwd ? 1 : -1;
        at(a, i, "a step after a scroll");
      }
    }
    mdbx_cursor_close(a);
  }
  // any deepness: rough results with the right sign, which scrolling agrees with
  void coarse() {
    MDBX_cursor *a = open(), *b = open();
    size_t i = pick_pos(), j = pick_pos();
    seek(a, i), seek(b, j);
    unsigned deep = c.below(5);
    intptr_t d = 777777;
    int rc = mdbx_cursor_distance(a, b, &d, deep);
    TR(c, "distance %zu %zu of %zu deepness %u -> %s %zd", i, j, v->n(), deep, rcname(rc), (ssize_t)d);
    db.must(rc, "mdbx_cursor_distance");
    const intptr_t exact = (intptr_t)j - (intptr_t)i;
    MDBX_stat st{};
    db.must(mdbx_dbi_stat(txn, t->dbi, &st, sizeof(st)), "mdbx_dbi_stat");
    const bool mixed = v->dup() && deep >= st.ms_depth; // pages of values inside the keys at the ends, but all values of keys between
    const intptr_t most = mixed ? v->n() : std::abs(exact);
    if (exact >= 0 ? d < 0 || d > most : d > 0 || d < -most) c.fail("mdbx_cursor_distance from %zu to %zu of %zu at deepness %u is %zd", i, j, v->n(), deep, (ssize_t)d);
    at(a, i, "after mdbx_cursor_distance"), at(b, j, "after mdbx_cursor_distance");
    intptr_t k = c.flip() ? (intptr_t)c.below(4) + 1 : 1 + (intptr_t)c.below(40);
    if (c.flip()) k = -k;
    rc = mdbx_cursor_scroll(a, k, deep);
    TR(c, "scroll from %zu of %zu by %zd at deepness %u -> %s", i, v->n(), (ssize_t)k, deep, rcname(rc));
    if (rc == MDBX_NOTFOUND) {
      if (std::abs(k) > (k > 0 ? (intptr_t)(v->n() - 1 - i) : (intptr_t)i)) c.label("coarse scroll to the end");
      settle(a, k > 0);
    } else {
      db.must(rc, "mdbx_cursor_scroll");
      MDBX_val kk{}, dd{};
      db.must(mdbx_cursor_get(a, &kk, &dd, MDBX_GET_CURRENT), "MDBX_GET_CURRENT after mdbx_cursor_scroll");
      size_t p = v->dup() ? v->lbp(B(kk), B(dd)) : v->lbk(B(kk));
      at(a, p, "after mdbx_cursor_scroll");
      if (k > 0 ? (intptr_t)p < (intptr_t)i + k : (intptr_t)p > (intptr_t)i + k) c.fail("mdbx_cursor_scroll from %zu of %zu by %zd at deepness %u moved to %zu only", i, v->n(), (ssize_t)k, deep, p);
      seek(b, i);
      db.must(mdbx_cursor_distance(b, a, &d, deep), "mdbx_cursor_distance");
      if (mixed ? d == 0 || (d > 0) != (k > 0) : d != k) c.fail("mdbx_cursor_scroll from %zu of %zu by %zd at deepness %u moved to %zu, the distance is %zd", i, v->n(), (ssize_t)k, deep, p, (ssize_t)d);
      if (c.flip()) {
        bool fwd = c.flip();
        rc = mdbx_cursor_get(a, &kk, &dd, fwd ? MDBX_NEXT : MDBX_PREV);
        if (fwd ? p + 1 >= v->n() : p == 0)
          db.expect(rc, MDBX_NOTFOUND, "a step from the end of data after a scroll");
        else {
          db.must(rc, "a step after a scroll");
          at(a, p + (fwd ? 1 : -1), "a step after a scroll");
        }
      }
      c.label("coarse scroll");
      ++good;
    }
    mdbx_cursor_close(a), mdbx_cursor_close(b);
  }
  // a cursor which ran out of data stays usable
  void settle(MDBX_cursor *a, bool fwd) {
    MDBX_val kk{}, dd{};
    if (fwd) {
      if (mdbx_cursor_eof(a) != MDBX_RESULT_TRUE) c.fail("mdbx_cursor_eof is not set after a scroll beyond the end");
      if (c.flip()) db.expect(mdbx_cursor_get(a, &kk, &dd, MDBX_NEXT), MDBX_NOTFOUND, "MDBX_NEXT after a scroll beyond the end");
      db.must(mdbx_cursor_get(a, &kk, &dd, MDBX_PREV), "MDBX_PREV after a scroll beyond the end");
      at(a, v->n() - 1, "MDBX_PREV after a scroll beyond the end");
    } else {
      if (c.flip()) db.expect(mdbx_cursor_get(a, &kk, &dd, MDBX_PREV), MDBX_NOTFOUND, "MDBX_PREV after a scroll beyond the beginning");
      at(a, 0, "after a scroll beyond the beginning");
    }
  }
  void distribute() {
    const size_t n = v->n();
    size_t i = pick_pos(), j = pick_pos();
    if (i > j && c.chance(7, 8)) std::swap(i, j);
    int shape = c.weighted({6, 2, 2});
    if (shape == 1) i = 0;
    if (shape == 2) j = n - 1;
    MDBX_cursor *a = open(), *b = open();
    if (shape != 1) seek(a, i);
    if (shape != 2) seek(b, j);
    std::vector<MDBX_cursor *> arr;
    for (size_t q = 1 + c.skewed(c.flip() ? 5 : 40); q; --q) {
      arr.push_back(open());
      if (c.chance(1, 4)) seek(arr.back(), pick_pos());
    }
    int rc = mdbx_cursor_distribute(shape == 1 ? nullptr : a, shape == 2 ? nullptr : b, arr.data(), arr.size(), deep());
    TR(c, "distribute %zu cursors over %zu..%zu of %zu -> %s", arr.size(), i, j, n, rcname(rc));
    if (i > j)
      db.expect(rc, MDBX_ENODATA, "mdbx_cursor_distribute over an inverted range");
    else if (i == j)
      db.expect(rc, MDBX_RESULT_TRUE, "mdbx_cursor_distribute over an empty range");
    else {
      const size_t dist = j - i, k = arr.size();
      db.expect(rc, dist >= k ? MDBX_SUCCESS : MDBX_RESULT_TRUE, "mdbx_cursor_distribute");
      size_t prev = i, lo = SIZE_MAX, hi = 0;
      for (size_t q = 0; q < k; ++q) {
        if (q >= dist) {
          if (mdbx_cursor_eof(arr[q]) != MDBX_RESULT_TRUE) c.fail("cursor %zu of %zu distributed over %zu pairs is not marked as unset", q, k, dist);
          continue;
        }
        MDBX_val kk{}, d{};
        int r2 = mdbx_cursor_get(arr[q], &kk, &d, MDBX_GET_CURRENT);
        if (r2) c.fail("cursor %zu of %zu distributed over %zu..%zu is not positioned: %s", q, k, i, j, rcname(r2));
        size_t p = v->dup() ? v->lbp(B(kk), B(d)) : v->lbk(B(kk));
        if (p <= prev || p > j) c.fail("cursor %zu of %zu distributed over %zu..%zu of %zu is at %zu after the previous one at %zu", q, k, i, j, n, p, prev);
        at(arr[q], p, "distributed cursor");
        lo = std::min(lo, p - prev), hi = std::max(hi, p - prev);
        prev = p;
      }
      if (prev != j) c.fail("the last of %zu cursors distributed over %zu..%zu is at %zu", k, i, j, prev);
      if (hi - lo > 1) c.fail("parts of the range %zu..%zu distributed over %zu cursors have from %zu to %zu pairs", i, j, k, lo, hi);
      ++good;
      c.label("distribute");
    }
    if (shape != 1) at(a, i, "after mdbx_cursor_distribute");
    if (shape != 2) at(b, j, "after mdbx_cursor_distribute");
    for (auto x : arr) mdbx_cursor_close(x);
    mdbx_cursor_close(a), mdbx_cursor_close(b);
  }
  void estimate() {
    const size_t n = v->n();
    ptrdiff_t d = 777777;
    MDBX_stat st{};
    db.must(mdbx_dbi_stat(txn, t->dbi, &st, sizeof(st)), "mdbx_dbi_stat");
    const bool one_leaf = st.ms_depth <= 1 && !v->dup();
    int rc;
    switch (c.below(4)) {
    case 0: { // cursors
      size_t i = pick_pos(), j = c.chance(1, 4) ? i : pick_pos();
      MDBX_cursor *a = open(), *b = open();
      seek(a, i), seek(b, j);
      rc = mdbx_estimate_distance(a, b, &d);
      TR(c, "estimate_distance %zu..%zu of %zu -> %s %zd", i, j, n, rcname(rc), (ssize_t)d);
      db.must(rc, "mdbx_estimate_distance");
      if (i == j ? d != 0 : one_leaf && d != (ptrdiff_t)j - (ptrdiff_t)i) c.fail("mdbx_estimate_distance from %zu to %zu of %zu (%u levels) is %zd", i, j, n, st.ms_depth, (ssize_t)d);
      if (i != j && d && v->kfirst(i) == v->kfirst(j) && v->kend(i) - v->kfirst(i) == n && (d > 0) != (j > i) && (mx_depth() <= 1))
        c.fail("mdbx_estimate_distance from %zu to %zu of %zu, values of one key, is %zd", i, j, n, (ssize_t)d);
      at(a, i, "after mdbx_estimate_distance"), at(b, j, "after mdbx_estimate_distance");
      mdbx_cursor_close(a), mdbx_cursor_close(b);
      c.label("estimate_distance");
      break;
    }
    case 1: { // move
      size_t i = pick_pos();
      MDBX_cursor *a = open();
      seek(a, i);
      Bytes k = c.flip() ? t->dom.gen_key(c) : v->f[pick_pos()].first, x = t->dom.gen_val_for(c, m(), k);
      MDBX_cursor_op op = c.one<MDBX_cursor_op>({MDBX_FIRST, MDBX_LAST, MDBX_NEXT, MDBX_PREV, MDBX_NEXT_NODUP, MDBX_PREV_NODUP, MDBX_SET_RANGE, MDBX_SET, MDBX_SET_KEY, MDBX_SET_LOWERBOUND});
      MDBX_val kk = V(k), xx = V(x);
      TR(c, "estimate_move from %zu of %zu %s %s = %s", i, n, opname(op).c_str(), show(k).c_str(), show(x).c_str());
      rc = mdbx_estimate_move(a, &kk, &xx, op, &d);
      TR(c, "estimate_move from %zu of %zu %s %s -> %s %zd", i, n, opname(op).c_str(), show(k).c_str(), rcname(rc), (ssize_t)d);
      if (rc != MDBX_SUCCESS && rc != MDBX_NOTFOUND && rc != MDBX_ENODATA && rc != MDBX_RESULT_TRUE) c.fail("mdbx_estimate_move(%s) returned %s", opname(op).c_str(), rcname(rc));
      if (one_leaf && rc == MDBX_SUCCESS) {
        ptrdiff_t to = -1;
        switch (op) {
        case MDBX_FIRST: to = 0; break;
        case MDBX_NEXT:
        case MDBX_NEXT_NODUP:
          if (i + 1 < n) to = i + 1;
          break;
        case MDBX_PREV:
        case MDBX_PREV_NODUP:
          if (i) to = i - 1;
          break;
        case MDBX_SET_RANGE:
          if (v->lbk(k) < n) to = v->lbk(k);
          break;
        case MDBX_SET:
        case MDBX_SET_KEY:
          if (v->has_key(k)) to = v->lbk(k);
          break;
        default: break;
        }
        if (to >= 0 && d != to - (ptrdiff_t)i) c.fail("mdbx_estimate_move from %zu by %s to %zd of %zu is %zd", i, opname(op).c_str(), (ssize_t)to, n, (ssize_t)d);
      }
      at(a, i, "after mdbx_estimate_move");
      mdbx_cursor_close(a);
      c.label("estimate_move");
      break;
    }
    default: { // range
      Bytes bk, ek, bd, ed;
      int bs = c.weighted({6, 1, 1}), es = c.weighted({6, 1, 1}); // key, null, epsilon
      if (bs == 2 && es == 2) es = 0;
      bk = c.flip() ? t->dom.gen_key(c) : v->f[pick_pos()].first;
      ek = c.chance(1, 4) ? bk : c.flip() ? t->dom.gen_key(c) : v->f[pick_pos()].first;
      bool ub = v->dup() && bs == 0 && c.chance(1, 3), ue = v->dup() && es == 0 && c.chance(1, 3);
      bd = t->dom.gen_val_for(c, m(), bk), ed = c.flip() && bk == ek ? bd : t->dom.gen_val_for(c, m(), ek);
      MDBX_val kb = V(bk), ke = V(ek), db_ = V(bd), de = V(ed);
      rc = mdbx_estimate_range(txn, t->dbi, bs == 0 ? &kb : bs == 1 ? nullptr : MDBX_EPSILON, ub ? &db_ : nullptr, es == 0 ? &ke : es == 1 ? nullptr : MDBX_EPSILON, ue ? &de : nullptr, &d);
      TR(c, "estimate_range %s%s .. %s%s of %zu -> %s %zd", bs == 0 ? show(bk).c_str() : bs == 1 ? "null" : "eps", ub ? (" = " + show(bd)).c_str() : "", es == 0 ? show(ek).c_str() : es == 1 ? "null" : "eps",
         ue ? (" = " + show(ed)).c_str() : "", n, rcname(rc), (ssize_t)d);
      if (rc != MDBX_SUCCESS) c.fail("mdbx_estimate_range on valid input returned %s", rcname(rc));
      if (d > (ptrdiff_t)n || d < -(ptrdiff_t)n) c.fail("mdbx_estimate_range is %zd for %zu pairs", (ssize_t)d, n);
      if (bs == 1 && es == 1 && d != (ptrdiff_t)n) c.fail("mdbx_estimate_range of everything is %zd for %zu pairs", (ssize_t)d, n);
      if (bs == 0 && es == 0 && v->ck(bk, ek) == 0 && !ub && !ue) { // one key: its values
        if (d != (ptrdiff_t)(v->ubk(bk) - v->lbk(bk))) c.fail("mdbx_estimate_range of one key is %zd, it has %zu values", (ssize_t)d, v->ubk(bk) - v->lbk(bk));
      } else if (bs == 0 && es == 0 && v->ck(bk, ek) == 0 && ub && ue && v->cv(bd, ed) == 0) {
        if (d != 0) c.fail("mdbx_estimate_range of equal bounds is %zd", (ssize_t)d);
      } else if (bs == 0 && es == 0 && one_leaf) {
        ptrdiff_t w = (ptrdiff_t)v->lbk(ek) - (ptrdiff_t)v->lbk(bk);
        const bool beyond = v->lbk(ek) == n || v->lbk(bk) == n; // a bound after the last pair
        if (beyond ? std::abs(d - w) > 1 : d != w) c.fail("mdbx_estimate_range over one leaf is %zd instead of %zd", (ssize_t)d, (ssize_t)w);
      }
      c.label("estimate_range");
    }
    }
  }
  unsigned mx_depth() {
    MDBX_cursor *a = open();
    seek(a, 0);
    size_t cnt = 0;
    MDBX_stat s{};
    db.must(mdbx_cursor_count_ex(a, &cnt, &s, sizeof(s)), "mdbx_cursor_count_ex");
    mdbx_cursor_close(a);
    return s.ms_depth;
  }
  // cursors of different tables do not make a range
  void strangers() {
    if (db.tabs.size() < 2) return;
    Table &o = t == &db.tabs[0] ? db.tabs[1] : db.tabs[0];
    MDBX_cursor *a = open(), *b;
    db.must(mdbx_cursor_open(txn, o.dbi, &b), "mdbx_cursor_open");
    MDBX_val k{}, d{};
    seek(a, pick_pos());
    int rc = mdbx_cursor_get(b, &k, &d, MDBX_FIRST);
    if (rc == MDBX_SUCCESS) {
      intptr_t dist;
      db.expect(mdbx_cursor_distance(a, b, &dist, deep()), MDBX_EINVAL, "mdbx_cursor_distance between different tables");
      db.expect(mdbx_cursor_distance(b, a, &dist, deep()), MDBX_EINVAL, "mdbx_cursor_distance between different tables");
      ptrdiff_t est;
      db.expect(mdbx_estimate_distance(a, b, &est), MDBX_EINVAL, "mdbx_estimate_distance between different tables");
      MDBX_cursor *x = open();
      db.expect(mdbx_cursor_distribute(a, b, &x, 1, deep()), MDBX_EINVAL, "mdbx_cursor_distribute between different tables");
      mdbx_cursor_close(x);
      c.label("different tables");
    } else if (rc != MDBX_NOTFOUND)
      db.must(rc, "MDBX_FIRST");
    mdbx_cursor_close(a), mdbx_cursor_close(b);
  }
  void run() {
    CfgReq r;
    EnvCfg cfg = gen_cfg(c, r);
    db.open_env(cfg);
    db.make_tables(1 + c.chance(1, 4), c.one<int>({0, 1, 2, 2}), c.thorough ? 1500 : 700, true);
    t = &db.tabs[0];
    c.plan_ops(10 + c.skewed(c.thorough ? 100 : 60));
    db.begin();
    bool ok = populate(c.skewed(c.thorough ? 3000 : 1500));
    if (ok && db.tabs.size() > 1) {
      t = &db.tabs[1];
      ok = populate(c.skewed(20));
      t = &db.tabs[0];
    }
    if (ok && c.chance(1, 4)) { // some holes
      View w(m());
      if (w.n())
        for (unsigned i = c.below(60); ok && i; --i) {
          size_t p = c.below(w.n());
          MDBX_val k = V(w.f[p].first), d = V(w.f[p].second);
          int rc = mdbx_del(db.txn(), t->dbi, &k, w.dup() ? &d : nullptr);
          if (db.full(rc)) ok = false;
          else if (rc == MDBX_SUCCESS) {
            MTable &x = db.cur().rw(t->name);
            w.dup() ? x.del(w.f[p].first, w.f[p].second) : x.del(w.f[p].first);
          } else
            db.expect(rc, MDBX_NOTFOUND, "mdbx_del of a deleted pair");
        }
    }
    if (!ok) {
      db.abort();
      return;
    }
    if (c.chance(2, 3)) {
      db.commit();
      db.must(mdbx_txn_begin(db.env, nullptr, MDBX_TXN_RDONLY, &txn), "mdbx_txn_begin(RDONLY)");
    } else
      txn = db.txn();
    v.reset(new View(m()));
    while (c.next_op()) {
      if (!v->n()) {
        MDBX_cursor *a = open(), *b = open();
        intptr_t d;
        db.expect(mdbx_cursor_distance(a, b, &d, deep()), MDBX_ENODATA, "mdbx_cursor_distance over an empty table");
        db.expect(mdbx_cursor_distance(a, nullptr, &d, deep()), MDBX_ENODATA, "mdbx_cursor_distance over an empty table");
        db.expect(mdbx_cursor_scroll(a, 1, deep()), MDBX_ENODATA, "mdbx_cursor_scroll over an empty table");
        mdbx_cursor_close(a), mdbx_cursor_close(b);
        ptrdiff_t e = 7;
        db.must(mdbx_estimate_range(txn, t->dbi, nullptr, nullptr, nullptr, nullptr, &e), "mdbx_estimate_range");
        if (e) c.fail("mdbx_estimate_range of an empty table is %zd", (ssize_t)e);
        continue;
      }
      switch (c.weighted({15, 15, 12, 12, 9, 1})) {
      case 0: distance(); break;
      case 1: scroll(); break;
      case 2: distribute(); break;
      case 3: estimate(); break;
      case 4: coarse(); break;
      case 5: strangers(); break;
      }
    }
    if (v->n() > 8 && good >= 5) c.nontrivial();
    if (txn != db.txn()) mdbx_txn_abort(txn);
    if (!db.tx.empty()) db.abort();
  }
};
} // namespace
void vf::run_case(Ctx &c) {
  S s(c);
  s.run();
}
