#include "cur.hpp"
namespace kit {
static const MDBX_cursor_op steps[] = {MDBX_NEXT, MDBX_PREV, MDBX_GET_CURRENT, MDBX_FIRST, MDBX_LAST, MDBX_NEXT_DUP, MDBX_PREV_DUP,
                                       MDBX_NEXT_NODUP, MDBX_PREV_NODUP, MDBX_FIRST_DUP, MDBX_LAST_DUP};
static const MDBX_cursor_op seeks[] = {
    MDBX_SET, MDBX_SET_KEY, MDBX_SET_RANGE, MDBX_SET_LOWERBOUND, MDBX_SET_UPPERBOUND, MDBX_GET_BOTH, MDBX_GET_BOTH_RANGE, MDBX_TO_KEY_LESSER_THAN,
    MDBX_TO_KEY_LESSER_OR_EQUAL, MDBX_TO_KEY_EQUAL, MDBX_TO_KEY_GREATER_OR_EQUAL, MDBX_TO_KEY_GREATER_THAN,
    // the rest is meaningful for multi-value tables only (except EQUAL)
    MDBX_TO_EXACT_KEY_VALUE_EQUAL, MDBX_TO_PAIR_EQUAL, MDBX_TO_EXACT_KEY_VALUE_LESSER_THAN, MDBX_TO_EXACT_KEY_VALUE_LESSER_OR_EQUAL,
    MDBX_TO_EXACT_KEY_VALUE_GREATER_OR_EQUAL, MDBX_TO_EXACT_KEY_VALUE_GREATER_THAN, MDBX_TO_PAIR_LESSER_THAN, MDBX_TO_PAIR_LESSER_OR_EQUAL,
    MDBX_TO_PAIR_GREATER_OR_EQUAL, MDBX_TO_PAIR_GREATER_THAN};

struct ScanCtx {
  std::vector<std::pair<Bytes, Bytes>> seen;
  size_t stop;
  int code;
};
static int scan_pred(void *ctx, MDBX_val *k, MDBX_val *d, void *arg) noexcept {
  ScanCtx *s = (ScanCtx *)ctx;
  if (arg != (void *)s) return MDBX_PROBLEM;
  s->seen.push_back({B(*k), B(*d)});
  return s->seen.size() >= s->stop ? s->code : MDBX_RESULT_FALSE;
}

static void multiple(Ctx &c, Cur &cur, const View &v, MDBX_cursor_op op, const Bytes &seekkey) {
  MDBX_val k{}, d{};
  const bool withkey = op == MDBX_SEEK_AND_GET_MULTIPLE || c.flip();
  if (op == MDBX_SEEK_AND_GET_MULTIPLE) k = V(seekkey);
  const Pos was = cur.p;
  int rc = mdbx_cursor_get(cur.mc, withkey ? &k : nullptr, &d, op);
  TR(c, "cursor_get(%s%s) at %s -> %s, %zu bytes", opname(op).c_str(), op == MDBX_SEEK_AND_GET_MULTIPLE ? (" " + show(seekkey)).c_str() : "", was.show().c_str(), rcname(rc), rc ? 0 : d.iov_len);
  const Pos unk{Pos::UNK, 0};
  if (!(v.flags & MDBX_DUPFIXED)) {
    if (rc != MDBX_INCOMPATIBLE && rc != MDBX_NOTFOUND && rc != MDBX_ENODATA) c.fail("%s on a table without fixed-size values returned %s", opname(op).c_str(), rcname(rc));
    if (op == MDBX_SEEK_AND_GET_MULTIPLE || rc != MDBX_INCOMPATIBLE) cur.p = unk;
    return;
  }
  size_t at = 0;
  Pos p = cur.p;
  if (op == MDBX_SEEK_AND_GET_MULTIPLE) {
    if (!v.has_key(seekkey)) {
      if (rc != MDBX_NOTFOUND && !(rc == MDBX_ENODATA && !v.n())) c.fail("SEEK_AND_GET_MULTIPLE of an absent key returned %s", rcname(rc));
      cur.p = v.n() ? Pos{Pos::HOLLOW, 0} : unk;
      return;
    }
    p = Pos{Pos::AT, v.lbk(seekkey)};
  }
  if (!v.n()) {
    if (rc != MDBX_NOTFOUND && rc != MDBX_ENODATA) c.fail("%s on an empty table returned %s", opname(op).c_str(), rcname(rc));
    cur.p = unk;
    return;
  }
  if (op == MDBX_NEXT_MULTIPLE) {
    if ((p.s == Pos::UNK || p.s == Pos::GONE)) {
      if (rc && rc != MDBX_NOTFOUND && rc != MDBX_ENODATA) c.fail("NEXT_MULTIPLE returned %s", rcname(rc));
      cur.p = unk;
      return;
    }
    Expect e = expect_step(v, p, MDBX_NEXT_DUP);
    bool okk = false;
    for (auto &a : e.alts)
      if (a.rc == rc) {
        okk = true;
        if (rc) {
          cur.p = unk;
          return;
        }
        at = a.i;
      }
    if (!okk) c.fail("NEXT_MULTIPLE at %s returned %s", p.show().c_str(), rcname(rc));
  } else if ((p.s == Pos::UNK || p.s == Pos::GONE)) {
    if (rc && rc != MDBX_NOTFOUND && rc != MDBX_ENODATA) c.fail("%s returned %s", opname(op).c_str(), rcname(rc));
    cur.p = unk;
    return;
  } else if (!p.on()) {
    if (rc != MDBX_ENODATA && rc != MDBX_NOTFOUND) c.fail("%s at %s returned %s", opname(op).c_str(), p.show().c_str(), rcname(rc));
    if (p.s == Pos::PAST) cur.p = unk;
    return;
  } else
    at = p.i;
  const size_t a = v.kfirst(at), b = v.kend(at), w = v.f[at].second.size();
  if (op == MDBX_PREV_MULTIPLE) {
    if (rc) {
      if (rc != MDBX_NOTFOUND && !(rc == MDBX_ENODATA && b - a == 1)) c.fail("PREV_MULTIPLE returned %s", rcname(rc));
      cur.p = unk;
      if (c.tracing && 0) abort();
      return;
    }
    if (at == a) c.fail("PREV_MULTIPLE at the first value of a key succeeded");
    --at; // some page before the current one: ends before the current position
  }
  if (rc) c.fail("%s at %s returned %s", opname(op).c_str(), p.show().c_str(), rcname(rc));
  if (withkey && op != MDBX_PREV_MULTIPLE && !(op == MDBX_SEEK_AND_GET_MULTIPLE) && !eqv(k, v.f[at].first))
    c.fail("%s returned key %s instead of %s", opname(op).c_str(), show(B(k)).c_str(), show(v.f[at].first).c_str());
  if (!w || d.iov_len % w || !d.iov_len) c.fail("%s returned %zu bytes for values of %zu bytes", opname(op).c_str(), d.iov_len, w);
  size_t cnt = d.iov_len / w;
  Bytes all = B(d);
  // the run is contiguous within the key and contains the position
  size_t s = v.lbp(v.f[a].first, all.substr(0, w));
  if (s < a || s + cnt > b) c.fail("%s returned values which the key does not have", opname(op).c_str());
  for (size_t j = 0; j < cnt; ++j)
    if (all.compare(j * w, w, v.f[s + j].second)) c.fail("%s returned a wrong value at %zu of %zu", opname(op).c_str(), j, cnt);
  if (op == MDBX_PREV_MULTIPLE ? s + cnt - 1 > at : !(s <= at && at < s + cnt))
    c.fail("%s returned values #%zu..%zu, which do not belong to position #%zu", opname(op).c_str(), s - a, s + cnt - 1 - a, at - a);
  cur.p = Pos{Pos::AT, s + cnt - 1};
  c.label("multiple");
  // pages follow each other without gaps
  if (op != MDBX_PREV_MULTIPLE && c.chance(1, 3)) {
    size_t next = s + cnt;
    for (;;) {
      d = MDBX_val{};
      rc = mdbx_cursor_get(cur.mc, nullptr, &d, MDBX_NEXT_MULTIPLE);
      if (next == b) {
        if (rc != MDBX_NOTFOUND) c.fail("NEXT_MULTIPLE after the last value of a key returned %s", rcname(rc));
        break;
      }
      if (rc) c.fail("NEXT_MULTIPLE returned %s while %zu values remain", rcname(rc), b - next);
      all = B(d);
      cnt = all.size() / w;
      if (!cnt || all.size() % w || next + cnt > b) c.fail("NEXT_MULTIPLE returned %zu bytes", all.size());
      for (size_t j = 0; j < cnt; ++j)
        if (all.compare(j * w, w, v.f[next + j].second)) c.fail("NEXT_MULTIPLE returned a wrong value");
      next += cnt;
    }
    cur.p = unk;
    c.label("multiple-all");
  }
}

bool cur_lax_batch = false;
static void batch(Ctx &c, Cur &cur, const View &v) {
  const size_t limit = 4 + 2 * c.skewed(150) + c.below(2);
  const MDBX_cursor_op op = c.flip() ? MDBX_FIRST : MDBX_NEXT;
  std::vector<MDBX_val> pairs(limit);
  size_t cnt = 77;
  const Pos p = cur.p;
  int rc = mdbx_cursor_get_batch(cur.mc, &cnt, pairs.data(), limit, op);
  TR(c, "get_batch(%s, limit %zu) at %s -> %s, %zu", opname(op).c_str(), limit, p.show().c_str(), rcname(rc), cnt);
  const Pos unk{Pos::UNK, 0};
  if (v.dup()) {
    if (rc != MDBX_INCOMPATIBLE) c.fail("get_batch on a multi-value table returned %s", rcname(rc));
    return;
  }
  if (rc != MDBX_SUCCESS && rc != MDBX_RESULT_TRUE) {
    if (rc != MDBX_NOTFOUND && rc != MDBX_ENODATA) c.fail("get_batch returned %s", rcname(rc));
    if (cnt) c.fail("get_batch failed with %s but reports %zu items", rcname(rc), cnt);
    bool legal = !v.n() || (p.s == Pos::UNK || p.s == Pos::GONE);
    if (op == MDBX_NEXT) legal |= cur_lax_batch || !p.on() || p.s == Pos::EOFS || p.i + 1 == v.n();
    if (!legal) c.fail("get_batch(%s) at %s of %zu returned %s", opname(op).c_str(), p.show().c_str(), v.n(), rcname(rc));
    if (!v.n()) cur.p = unk;
    return;
  }
  if (!v.n()) c.fail("get_batch on an empty table returned %s", rcname(rc));
  if (cnt % 2 || cnt > limit || !cnt) c.fail("get_batch reports %zu items of %zu", cnt, limit);
  size_t s = v.lbk(B(pairs[0]));
  bool legal = (p.s == Pos::UNK || p.s == Pos::GONE) || (p.on() && s == p.i) || (op == MDBX_FIRST && s == 0);
  if (!legal) c.fail("get_batch(%s) at %s started from #%zu", opname(op).c_str(), p.show().c_str(), s);
  if (s + cnt / 2 > v.n()) c.fail("get_batch returned too many pairs");
  for (size_t j = 0; j < cnt / 2; ++j)
    if (!eqv(pairs[j * 2], v.f[s + j].first) || !eqv(pairs[j * 2 + 1], v.f[s + j].second)) c.fail("get_batch returned a wrong pair at %zu of %zu", j, cnt / 2);
  const size_t e = s + cnt / 2;
  if ((rc == MDBX_RESULT_TRUE) != (e == v.n())) c.fail("get_batch returned %s but %zu pairs remain", rcname(rc), v.n() - e);
  if (rc == MDBX_SUCCESS && cnt + 2 <= limit) c.fail("get_batch returned %zu items of %zu though data remains", cnt, limit);
  cur.p = e == v.n() ? Pos{Pos::PAST, 0} : p.s == Pos::GONE || p.s == Pos::UNK ? unk : Pos{Pos::AT, e};
  c.label("batch");
}

static void scan(Ctx &c, Cur &cur, const View &v, const Table &tb, const MTable &m) {
  const bool from = c.flip();
  const MDBX_cursor_op turn = c.one({MDBX_NEXT, MDBX_PREV, MDBX_NEXT_NODUP, MDBX_PREV_NODUP, MDBX_NEXT_DUP, MDBX_PREV_DUP});
  ScanCtx s;
  s.stop = 1 + c.skewed(60);
  s.code = c.one({(int)MDBX_RESULT_TRUE, 4321});
  Expect e;
  int rc;
  MDBX_cursor_op start;
  Bytes k, d;
  const Pos was = cur.p;
  if (from) {
    start = c.one({MDBX_SET_LOWERBOUND, MDBX_SET_UPPERBOUND, MDBX_SET_KEY, MDBX_GET_BOTH, MDBX_TO_KEY_LESSER_THAN, MDBX_TO_KEY_GREATER_OR_EQUAL, MDBX_TO_PAIR_GREATER_OR_EQUAL});
    if (!v.dup() && start == MDBX_TO_PAIR_GREATER_OR_EQUAL) start = MDBX_SET_LOWERBOUND;
    k = tb.dom.gen_key_for(c, m), d = tb.dom.gen_val_for(c, m, k);
    MDBX_val kk = V(k), dd = V(d);
    e = expect_seek(v, was, start, k, d, false);
    rc = mdbx_cursor_scan_from(cur.mc, scan_pred, &s, start, &kk, &dd, turn, &s);
  } else {
    start = c.one({MDBX_FIRST, MDBX_LAST, MDBX_GET_CURRENT, MDBX_FIRST_DUP, MDBX_LAST_DUP});
    e = expect_step(v, was, start);
    rc = mdbx_cursor_scan(cur.mc, scan_pred, &s, start, turn, &s);
  }
  TR(c, "scan%s(%s,%s) at %s -> %s, %zu seen", from ? "_from" : "", opname(start).c_str(), opname(turn).c_str(), was.show().c_str(), rcname(rc), s.seen.size());
  const Pos unk{Pos::UNK, 0};
  cur.p = unk;
  const bool dupturn = turn == MDBX_NEXT_DUP || turn == MDBX_PREV_DUP;
  if (e.adopt) {
    for (auto &x : s.seen) {
      size_t j = v.dup() ? v.lbp(x.first, x.second) : v.lbk(x.first);
      if (j >= v.n() || v.f[j] != x) c.fail("scan has shown a pair that does not exist");
    }
    return;
  }
  if (s.seen.empty()) {
    if (dupturn && !v.dup() && rc == MDBX_NOTFOUND) return;
    for (auto &a : e.alts)
      if (!a.item && a.rc == rc) return;
    c.fail("scan%s(%s,%s) at %s returned %s without showing anything", from ? "_from" : "", opname(start).c_str(), opname(turn).c_str(), was.show().c_str(), rcname(rc));
  }
  Bytes why;
  bool matched = false;
  for (auto &a : e.alts) {
    if (!a.item || v.f[a.i] != s.seen[0]) continue;
    // simulate
    std::vector<size_t> want{a.i};
    Pos p{Pos::AT, a.i};
    while (want.size() < s.stop) {
      Expect t = expect_step(v, p, turn);
      if (t.alts[0].rc) break;
      want.push_back(t.alts[0].i);
      p = t.alts[0].next;
    }
    const int wrc = want.size() >= s.stop ? s.code : (int)MDBX_RESULT_FALSE;
    bool same = want.size() == s.seen.size() && rc == wrc;
    if ((was.s == Pos::PAST || was.s == Pos::GONE) && start == MDBX_GET_CURRENT) return; // unspecified start
    if (!same && was.s == Pos::EOFS && start == MDBX_GET_CURRENT && s.seen.size() == 1) same = true;
    for (size_t j = 0; same && j < want.size() && j < s.seen.size(); ++j) same = v.f[want[j]] == s.seen[j];
    if (same) {
      matched = true;
      if (rc == s.code) cur.p = p;
      break;
    }
    why = "showed " + std::to_string(s.seen.size()) + " pairs and returned " + rcname(rc) + ", expected " + std::to_string(want.size()) + " pairs and " + rcname(wrc);
  }
  if (!matched) c.fail("scan%s(%s,%s) at %s: %s", from ? "_from" : "", opname(start).c_str(), opname(turn).c_str(), was.show().c_str(), why.empty() ? "started from a wrong pair" : why.c_str());
  c.label("scan");
}

void cur_random_op(Ctx &c, Cur &cur, const View &v, const Table &tb, const MTable &m, unsigned kind) {
  const unsigned wk = kind;
  switch (c.weighted({40, 40, wk ? 0u : 6u, wk ? 0u : 5u, wk ? 0u : 6u})) {
  case 0: {
    const MDBX_cursor_op op = steps[v.dup() ? c.weighted({16, 16, 8, 3, 5, 8, 8, 6, 6, 3, 3}) : c.weighted({20, 20, 8, 3, 5, 2, 2, 4, 4, 1, 1})];
    MDBX_val k{}, d{};
    // the value may be omitted, which is allowed except for the *_DUP brim operations
    const bool withd = op == MDBX_FIRST_DUP || op == MDBX_LAST_DUP || !c.chance(1, 10), withk = !c.chance(1, 10);
    const Pos was = cur.p;
    int rc = mdbx_cursor_get(cur.mc, withk ? &k : nullptr, withd ? &d : nullptr, op);
    TR(c, "cursor_get(%s) at %s -> %s %s = %s", opname(op).c_str(), was.show().c_str(), rcname(rc), rc == 0 && withk ? show(B(k)).c_str() : "", rc == 0 && withd ? show(B(d)).c_str() : "");
    Bytes why;
    const bool blur = was.s == Pos::UNK && op == MDBX_GET_CURRENT; // does not move the cursor
    if (!settle(v, cur.p, expect_step(v, was, op), rc, withk ? &k : nullptr, withd ? &d : nullptr, why))
      c.fail("%s from %s of %zu pairs %s", opname(op).c_str(), was.show().c_str(), v.n(), why.c_str());
    if (blur) cur.p = was;
    break;
  }
  case 1: {
    const MDBX_cursor_op op = seeks[c.below(v.dup() ? sizeof(seeks) / sizeof(seeks[0]) : 14)];
    Bytes kb = tb.dom.gen_key_for(c, m), db = tb.dom.gen_val_for(c, m, kb);
    if (!v.dup() && (op == MDBX_TO_EXACT_KEY_VALUE_EQUAL || op == MDBX_TO_PAIR_EQUAL) && !c.chance(1, 4))
      if (const Bytes *x = m.get(kb)) db = *x;
    MDBX_val k = V(kb), d = V(db);
    const bool need = op >= MDBX_TO_EXACT_KEY_VALUE_LESSER_THAN || op == MDBX_SET_LOWERBOUND || op == MDBX_SET_UPPERBOUND || op == MDBX_GET_BOTH || op == MDBX_GET_BOTH_RANGE;
    bool nodata = false, withd = true;
    if (!need) {
      withd = !c.chance(1, 10);
      nodata = true;
      d = MDBX_val{};
    } else if ((op == MDBX_SET_LOWERBOUND || op == MDBX_SET_UPPERBOUND) && c.chance(1, 6))
      nodata = true, d = MDBX_val{};
    const void *kp = k.iov_base;
    const Pos was = cur.p;
    int rc = mdbx_cursor_get(cur.mc, &k, withd ? &d : nullptr, op);
    const bool got = rc == 0 || rc == MDBX_RESULT_TRUE;
    TR(c, "cursor_get(%s, %s%s) at %s -> %s %s = %s", opname(op).c_str(), show(kb).c_str(), nodata ? "" : (", " + show(db)).c_str(), was.show().c_str(), rcname(rc),
       got ? show(B(k)).c_str() : "", got && withd ? show(B(d)).c_str() : "");
    Bytes why;
    if (op == MDBX_SET && (k.iov_base != kp || k.iov_len != kb.size())) c.fail("MDBX_SET has changed the key object");
    if (!settle(v, cur.p, expect_seek(v, was, op, kb, db, nodata), rc, &k, withd ? &d : nullptr, why))
      c.fail("%s %s%s%s from %s of %zu pairs %s", opname(op).c_str(), show(kb).c_str(), nodata ? "" : " ", nodata ? "" : show(db).c_str(), was.show().c_str(), v.n(), why.c_str());
    break;
  }
  case 2:
    if (v.dup() && (v.flags & MDBX_DUPFIXED))
      multiple(c, cur, v, c.one({MDBX_SEEK_AND_GET_MULTIPLE, MDBX_GET_MULTIPLE, MDBX_NEXT_MULTIPLE, MDBX_PREV_MULTIPLE}), tb.dom.gen_key_for(c, m));
    else if (c.chance(1, 4))
      multiple(c, cur, v, c.one({MDBX_SEEK_AND_GET_MULTIPLE, MDBX_GET_MULTIPLE, MDBX_NEXT_MULTIPLE, MDBX_PREV_MULTIPLE}), tb.dom.gen_key_for(c, m));
    else
      batch(c, cur, v);
    break;
  case 3:
    batch(c, cur, v);
    break;
  case 4:
    scan(c, cur, v, tb, m);
    break;
  }
}

void cur_state_checks(Ctx &c, const Cur &cur, const View &v) {
  const Pos &p = cur.p;
  int eof = mdbx_cursor_eof(cur.mc), of = mdbx_cursor_on_first(cur.mc), ol = mdbx_cursor_on_last(cur.mc), ofd = mdbx_cursor_on_first_dup(cur.mc), old = mdbx_cursor_on_last_dup(cur.mc);
  for (int x : {eof, of, ol, ofd, old})
    if (x != MDBX_RESULT_TRUE && x != MDBX_RESULT_FALSE) c.fail("a cursor state query returned %s", rcname(x));
  if (p.s == Pos::FRESH || p.s == Pos::HOLLOW || p.s == Pos::PAST || p.s == Pos::EOFS) {
    if (eof != MDBX_RESULT_TRUE) c.fail("mdbx_cursor_eof() is false for a cursor in state %s", p.show().c_str());
  }
  size_t count = 777;
  MDBX_stat st;
  int rc = mdbx_cursor_count_ex(cur.mc, &count, c.flip() ? &st : nullptr, sizeof st);
  if (rc) c.fail("mdbx_cursor_count_ex() returned %s at %s", rcname(rc), p.show().c_str());
  if (!p.on()) {
    if ((p.s != Pos::UNK && p.s != Pos::GONE) && p.s != Pos::PAST && count != 0) c.fail("mdbx_cursor_count() is %zu at %s", count, p.show().c_str());
    return;
  }
  const size_t a = v.kfirst(p.i), b = v.kend(p.i);
  if (count != b - a) c.fail("mdbx_cursor_count() is %zu for a key with %zu values", count, b - a);
  if (p.s == Pos::AT && b < v.n() && eof != MDBX_RESULT_FALSE) c.fail("mdbx_cursor_eof() is true at pair #%zu of %zu", p.i, v.n());
  if (v.dup()) {
    if ((a == 0) != (of == MDBX_RESULT_TRUE) && !(of == MDBX_RESULT_FALSE && p.i)) c.fail("mdbx_cursor_on_first() is %s at pair #%zu of %zu", rcname(of), p.i, v.n());
    if ((b == v.n()) != (ol == MDBX_RESULT_TRUE) && !(ol == MDBX_RESULT_FALSE && p.i + 1 < v.n())) c.fail("mdbx_cursor_on_last() is %s at pair #%zu of %zu", rcname(ol), p.i, v.n());
  } else {
    if ((p.i == 0) != (of == MDBX_RESULT_TRUE)) c.fail("mdbx_cursor_on_first() is %s at pair #%zu of %zu", rcname(of), p.i, v.n());
    if ((p.i + 1 == v.n()) != (ol == MDBX_RESULT_TRUE)) c.fail("mdbx_cursor_on_last() is %s at pair #%zu of %zu", rcname(ol), p.i, v.n());
  }
  if ((p.i == a) != (ofd == MDBX_RESULT_TRUE)) c.fail("mdbx_cursor_on_first_dup() is %s at value #%zu of %zu", rcname(ofd), p.i - a, b - a);
  if ((p.i + 1 == b) != (old == MDBX_RESULT_TRUE)) c.fail("mdbx_cursor_on_last_dup() is %s at value #%zu of %zu", rcname(old), p.i - a, b - a);
}
} // namespace kit
