#include "cur.hpp"
using namespace kit;
const vf::Config vf::config = {
    "C04",
    "a case is one generated environment and table, up to six cursors placed by generated seeks and steps, and a sequence of modifications through "
    "the cursors and without them (single, bulk, multi-element, whole-key, clear; inside nested transactions that commit or abort), after each of "
    "which the cursors are stepped under the oracle; non-trivial: at least 12 modifications while cursors were positioned and at least 12 steps",
    60000, 900000};
namespace {
struct Id {
  Pos p;
  Bytes k, v;           // the pair itself, for a deleted one too
  Bytes fk, fv, pk, pv; // the pairs around it, when it was deleted
  bool fend = false, pbegin = false;
};
struct C4 {
  Ctx &c;
  Db db;
  Table *t = nullptr;
  std::unique_ptr<View> v;
  std::vector<Cur> cur;
  std::vector<std::vector<Id>> saved; // per nesting level
  size_t mods = 0, steps = 0;
  bool dead = false;
  explicit C4(Ctx &c) : c(c), db(c) {}
  const MTable &m() { return db.cur().ro(t->name); }
  Id ident(const Cur &x) {
    Id d;
    d.p = x.p;
    if (x.p.on()) {
      d.k = v->f[x.p.i].first, d.v = v->f[x.p.i].second;
      around(d, x.p.i, x.p.i + 1);
    } else if (x.p.s == Pos::GONE)
      d = gone[&x - cur.data()];
    return d;
  }
  Id gone[8];
  void around(Id &d, size_t from, size_t to) {
    d.pbegin = from == 0;
    if (from) d.pk = v->f[from - 1].first, d.pv = v->f[from - 1].second;
    d.fend = to >= v->n();
    if (!d.fend) d.fk = v->f[to].first, d.fv = v->f[to].second;
  }
  size_t lb(const Bytes &k, const Bytes &d) const { return v->dup() ? v->lbp(k, d) : v->lbk(k); }
  size_t find(const Bytes &k, const Bytes &d) const {
    size_t i = lb(k, d);
    return i < v->n() && v->ck(v->f[i].first, k) == 0 && (!v->dup() || v->cv(v->f[i].second, d) == 0) ? i : SIZE_MAX;
  }
  void restore(size_t idx, const Id &d, bool blur_at_key = false, const Bytes *bk = nullptr) {
    Pos &p = cur[idx].p;
    p = d.p;
    if (d.p.on()) {
      if (blur_at_key && v->ck(d.k, *bk) == 0) {
        p = Pos{Pos::UNK};
        return;
      }
      size_t i = find(d.k, d.v);
      if (i != SIZE_MAX)
        p.i = i;
      else
        set_gone(idx, d);
    } else if (d.p.s == Pos::GONE) {
      if (blur_at_key && (v->ck(d.k, *bk) == 0 || (!d.fend && v->ck(d.fk, *bk) == 0) || (!d.pbegin && v->ck(d.pk, *bk) == 0)))
        p = Pos{Pos::UNK};
      else
        set_gone(idx, d);
    }
    else if (d.p.s != Pos::FRESH)
      p = Pos{Pos::UNK};
  }
  void set_gone(size_t idx, const Id &d) {
    Pos &p = cur[idx].p;
    p = Pos{Pos::GONE};
    p.gk = d.k;
    p.a = 0;
    if (!d.pbegin) p.a = v->dup() ? v->ubp(d.pk, d.pv) : v->ubk(d.pk);
    p.b = d.fend ? v->n() : lb(d.fk, d.fv);
    if (!v->n()) p = Pos{Pos::UNK};
    // a deleted border widens the gap for good
    gone[idx] = d;
    gone[idx].p = p;
    around(gone[idx], p.a, p.b);
  }
  std::vector<Id> idents() {
    std::vector<Id> r;
    for (auto &x : cur) r.push_back(ident(x));
    return r;
  }
  void refresh() { v.reset(new View(m())); }
  // runs a modification and carries the positions over
  template <class F> void modify(F f) {
    auto ids = idents();
    f();
    if (dead) return;
    refresh();
    for (size_t i = 0; i < cur.size(); ++i) restore(i, ids[i]);
    ++mods;
  }
  bool chk(int rc, int want, const char *what) {
    if (rc == want) return true;
    if (db.full(rc)) {
      dead = true;
      return false;
    }
    c.fail("%s returned %s, expected %s", what, rcname(rc), rcname(want));
  }
  void step_all() {
    // look at a few cursors without moving them much
    for (size_t i = 0; i < cur.size(); ++i)
      if (c.chance(1, 3)) step(i);
  }
  void step(size_t i) {
    Cur &x = cur[i];
    static const MDBX_cursor_op ops[] = {MDBX_GET_CURRENT, MDBX_NEXT, MDBX_PREV, MDBX_NEXT_DUP, MDBX_PREV_DUP, MDBX_NEXT_NODUP, MDBX_PREV_NODUP, MDBX_FIRST_DUP, MDBX_LAST_DUP};
    MDBX_cursor_op op = ops[c.weighted({10, 10, 8, 2, 2, 2, 2, 1, 1})];
    MDBX_val k{}, d{};
    const Pos was = x.p;
    int rc = mdbx_cursor_get(x.mc, &k, &d, op);
    TR(c, "  cursor %zu %s at %s -> %s %s = %s", i, opname(op).c_str(), was.show().c_str(), rcname(rc), rc == 0 ? show(B(k)).c_str() : "", rc == 0 ? show(B(d)).c_str() : "");
    Bytes why;
    if (!settle(*v, x.p, expect_step(*v, was, op), rc, &k, &d, why))
      c.fail("cursor %zu: %s at %s of %zu pairs %s", i, opname(op).c_str(), was.show().c_str(), v->n(), why.c_str());
    if (was.s == Pos::UNK && op == MDBX_GET_CURRENT) x.p = was;
    if (was.s != Pos::FRESH && was.s != Pos::UNK) ++steps;
  }
  void cursor_put(size_t i) {
    Cur &x = cur[i];
    unsigned flags = 0;
    Bytes k, d;
    const bool multi = v->dup();
    int want = MDBX_SUCCESS;
    if (x.p.on() && !x.p.dupend && c.chance(1, 3)) {
      // update in place
      k = v->f[x.p.i].first, d = t->dom.gen_val_for(c, m(), k);
      Bytes old = v->f[x.p.i].second;
      int rc;
      auto ids = idents();
      MDBX_val kk = V(k), dd = V(d);
      rc = mdbx_cursor_put(x.mc, &kk, &dd, MDBX_CURRENT);
      TR(c, "cursor %zu put(CURRENT) %s: %s -> %s = %s", i, show(k).c_str(), show(old).c_str(), show(d).c_str(), rcname(rc));
      if (!chk(rc, MDBX_SUCCESS, "cursor_put(CURRENT)")) return;
      MTable &w = db.cur().rw(t->name);
      if (multi && cmp_val(w.flags, old, d)) {
        w.del(k, old);
        w.add(k, d);
      } else if (!multi)
        w.set(k, d);
      refresh();
      for (size_t j = 0; j < cur.size(); ++j) {
        // the single value may be removed and stored again, what its other cursors refer to then is not specified
        bool same = multi && ids[j].p.on() && v->ck(ids[j].k, k) == 0 && v->cv(ids[j].v, old) == 0;
        if (multi && ids[j].p.s == Pos::GONE)
          same = (!ids[j].fend && v->ck(ids[j].fk, k) == 0 && v->cv(ids[j].fv, old) == 0) || (!ids[j].pbegin && v->ck(ids[j].pk, k) == 0 && v->cv(ids[j].pv, old) == 0);
        restore(j, ids[j]);
        if (same) cur[j].p = Pos{Pos::UNK};
      }
      x.p = Pos{Pos::AT, find(k, d)};
      ++mods;
      c.label("cursor-update");
      return;
    }
    k = t->dom.gen_key_for(c, m()), d = t->dom.gen_val_for(c, m(), k);
    const bool havek = m().has(k), have = multi ? m().has(k, d) : havek;
    switch (c.weighted({6, 2, multi ? 2u : 0u, 1})) {
    case 0: break;
    case 1:
      flags = MDBX_NOOVERWRITE;
      if (havek) want = MDBX_KEYEXIST;
      break;
    case 2:
      flags = MDBX_NODUPDATA;
      if (have) want = MDBX_KEYEXIST;
      break;
    case 3: // append
      if (v->n() && v->ck(k, v->f.back().first) <= 0) return;
      flags = MDBX_APPEND;
      break;
    }
    auto ids = idents();
    MDBX_val kk = V(k), dd = V(d);
    int rc = mdbx_cursor_put(x.mc, &kk, &dd, (MDBX_put_flags_t)flags);
    TR(c, "cursor %zu put flags=%x %s -> %s = %s", i, flags, show(k).c_str(), show(d).c_str(), rcname(rc));
    if (!chk(rc, want, "cursor_put")) return;
    if (!rc && !(multi && have)) multi ? (void)db.cur().rw(t->name).add(k, d) : db.cur().rw(t->name).set(k, d);
    refresh();
    for (size_t j = 0; j < cur.size(); ++j) restore(j, ids[j]);
    x.p = rc ? Pos{Pos::UNK} : Pos{Pos::AT, find(k, d)};
    ++mods;
    c.label("cursor-put");
  }
  void cursor_del(size_t i) {
    Cur &x = cur[i];
    const bool all = v->dup() && c.chance(1, 6);
    size_t target = x.p.on() ? x.p.i : SIZE_MAX;
    if (x.p.s == Pos::GONE) {
      if (x.p.a != x.p.b || all) return;
      target = x.p.b < v->n() ? x.p.b : SIZE_MAX;
    } else if (x.p.s == Pos::UNK || x.p.s == Pos::PAST || x.p.dupend)
      return;
    auto ids = idents();
    Id me;
    if (target != SIZE_MAX) {
      me.p = Pos{Pos::AT, target};
      me.k = v->f[target].first, me.v = v->f[target].second;
      all ? around(me, v->kfirst(target), v->kend(target)) : around(me, target, target + 1);
    }
    int rc = mdbx_cursor_del(x.mc, all ? c.one({MDBX_ALLDUPS, MDBX_NODUPDATA}) : c.one({MDBX_UPSERT, MDBX_CURRENT}));
    TR(c, "cursor %zu del%s at %s = %s", i, all ? "(ALLDUPS)" : "", x.p.show().c_str(), rcname(rc));
    if (target == SIZE_MAX) {
      if (rc != MDBX_ENODATA && rc != MDBX_NOTFOUND) c.fail("cursor_del of an unpositioned cursor (%s) returned %s", x.p.show().c_str(), rcname(rc));
      if (x.p.s == Pos::GONE) x.p = Pos{Pos::UNK};
      return;
    }
    if (!chk(rc, MDBX_SUCCESS, "cursor_del")) return;
    MTable &w = db.cur().rw(t->name);
    all || !v->dup() ? w.del(me.k) : w.del(me.k, me.v);
    refresh();
    for (size_t j = 0; j < cur.size(); ++j)
      if (all && ids[j].p.on() && v->ck(ids[j].k, me.k) == 0) { // the whole key is gone
        Id d = me;
        d.v = ids[j].v;
        set_gone(j, d);
      } else
        restore(j, ids[j]);
    set_gone(i, me);
    ++mods;
    c.label(all ? "cursor-del-all" : "cursor-del");
  }
  void plain(Table &tb) {
    const bool mine = &tb == t;
    if (!mine) {
      bool ok = db.op_bulk(tb, 60);
      if (!ok) dead = true;
      return;
    }
    switch (c.weighted({30, 20, 8, 2, 1})) {
    case 0: {
      Bytes k = t->dom.gen_key_for(c, m()), d = t->dom.gen_val_for(c, m(), k);
      modify([&] {
        MDBX_val kk = V(k), dd = V(d);
        int rc = mdbx_put(db.txn(), t->dbi, &kk, &dd, MDBX_UPSERT);
        TR(c, "put %s -> %s = %s", show(k).c_str(), show(d).c_str(), rcname(rc));
        if (!chk(rc, MDBX_SUCCESS, "put")) return;
        v->dup() ? (void)db.cur().rw(t->name).add(k, d) : db.cur().rw(t->name).set(k, d);
      });
      break;
    }
    case 1: {
      Bytes k = t->dom.gen_key_for(c, m()), d = t->dom.gen_val_for(c, m(), k);
      const bool one = v->dup() && c.chance(2, 3);
      const bool have = one ? m().has(k, d) : m().has(k);
      modify([&] {
        MDBX_val kk = V(k), dd = V(d);
        int rc = mdbx_del(db.txn(), t->dbi, &kk, one ? &dd : nullptr);
        TR(c, "del %s%s = %s", show(k).c_str(), one ? (" " + show(d)).c_str() : "", rcname(rc));
        if (!chk(rc, have ? MDBX_SUCCESS : MDBX_NOTFOUND, "del")) return;
        if (have) one ? db.cur().rw(t->name).del(k, d) : db.cur().rw(t->name).del(k);
      });
      break;
    }
    case 2:
      modify([&] { dead = !db.op_bulk(*t, 80); });
      break;
    case 3: {
      if (!v->dup()) break;
      Bytes k = t->dom.gen_key_for(c, m()), d = t->dom.gen_val_for(c, m(), k);
      auto ids = idents();
      MDBX_val kk = V(k), dd = V(d);
      int rc = mdbx_put(db.txn(), t->dbi, &kk, &dd, MDBX_UPSERT | MDBX_ALLDUPS);
      TR(c, "put(ALLDUPS) %s -> %s = %s", show(k).c_str(), show(d).c_str(), rcname(rc));
      if (!chk(rc, MDBX_SUCCESS, "put(ALLDUPS)")) return;
      db.cur().rw(t->name).set(k, d);
      refresh();
      for (size_t j = 0; j < cur.size(); ++j) restore(j, ids[j], true, &k);
      break;
    }
    case 4: {
      if (!db.op_clear(*t)) {
        dead = true;
        return;
      }
      refresh();
      for (auto &x : cur)
        if (x.p.s != Pos::FRESH) x.p = Pos{Pos::UNK};
      break;
    }
    }
  }
};
} // namespace
void vf::run_case(Ctx &c) {
  C4 s(c);
  cur_lax_batch = true;
  Db &db = s.db;
  db.open_env(gen_cfg(c));
  db.make_tables(1 + c.below(2), 0, c.thorough ? 500 : 200, true);
  Table &t = db.tabs[0];
  s.t = &t;
  db.begin();
  const size_t fills = c.below(6);
  bool ok = true;
  for (size_t i = 0; i < fills && ok; ++i) ok = db.op_bulk(t, 120);
  if (ok && c.chance(1, 2)) {
    db.commit();
    db.begin();
  }
  if (!ok) {
    db.abort();
    db.close_all();
    return;
  }
  s.refresh();
  s.cur.resize(2 + c.below(5));
  for (auto &x : s.cur) db.must(mdbx_cursor_open(db.txn(), t.dbi, &x.mc), "cursor_open");
  c.plan_ops(15 + c.skewed(c.thorough ? 300 : 150));
  while (c.next_op() && !s.dead) {
    const size_t i = c.below(s.cur.size());
    switch (c.weighted({25, 22, 18, 14, 14, 3, 2, 2, 2, 2})) {
    case 0: {
      MTable copy = s.m();
      cur_random_op(c, s.cur[i], *s.v, t, copy, c.chance(1, 8) ? 0 : 1);
      break;
    }
    case 1: s.step(i); break;
    case 2: s.cursor_put(i); break;
    case 3: s.cursor_del(i); break;
    case 4: s.plain(t); break;
    case 5: s.plain(db.tabs[c.below(db.tabs.size())]); break;
    case 6:
      if (db.tx.size() < 4 && !(db.cfg.flags & MDBX_WRITEMAP)) {
        s.saved.push_back(s.idents());
        db.begin_nested();
      }
      break;
    case 7:
      if (!s.saved.empty()) {
        db.commit();
        s.saved.pop_back();
        s.refresh();
        c.label("nested-commit");
      }
      break;
    case 8:
      if (!s.saved.empty()) {
        db.abort();
        s.refresh();
        auto ids = s.saved.back();
        s.saved.pop_back();
        for (size_t j = 0; j < s.cur.size(); ++j) s.restore(j, ids[j]);
        c.label("nested-abort");
      }
      break;
    case 9: {
      size_t j = c.below(s.cur.size());
      if (i != j) {
        db.must(mdbx_cursor_copy(s.cur[i].mc, s.cur[j].mc), "cursor_copy");
        TR(c, "cursor %zu copied to %zu", i, j);
        s.cur[j].p = s.cur[i].p;
        s.gone[j] = s.gone[i];
      }
      break;
    }
    }
    if (!s.dead) s.step_all();
  }
  if (!s.dead) {
    db.check_table(db.txn(), t.dbi, s.m(), "at the end");
    // a full walk by every positioned cursor to the end
    for (size_t i = 0; i < s.cur.size(); ++i) {
      Cur &x = s.cur[i];
      for (size_t n = 0; n < s.v->n() + 3; ++n) {
        MDBX_val k{}, d{};
        const Pos was = x.p;
        int rc = mdbx_cursor_get(x.mc, &k, &d, MDBX_NEXT);
        Bytes why;
        if (!settle(*s.v, x.p, expect_step(*s.v, was, MDBX_NEXT), rc, &k, &d, why)) c.fail("cursor %zu: the final NEXT at %s of %zu pairs %s", i, was.show().c_str(), s.v->n(), why.c_str());
        if (rc) break;
      }
    }
  }
  while (db.tx.size() > 1) s.dead ? db.abort() : db.commit();
  for (auto &x : s.cur) mdbx_cursor_close(x.mc);
  if (s.dead)
    while (!db.tx.empty()) db.abort();
  else
    db.commit();
  if (s.mods >= 12 && s.steps >= 12) c.nontrivial();
  db.check_committed("at the end");
  db.close_all();
}
