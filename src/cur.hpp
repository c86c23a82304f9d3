// Cursor oracle: what every cursor operation must return, given the sorted contents and the cursor's position.
#pragma once
#include "kit.hpp"
#include <algorithm>
namespace kit {

struct View {
  Flat f;
  unsigned flags;
  View(const MTable &t) : f(t.flat()), flags(t.flags) {}
  size_t n() const { return f.size(); }
  bool dup() const { return flags & MDBX_DUPSORT; }
  int ck(const Bytes &a, const Bytes &b) const { return cmp_key(flags, a, b); }
  int cv(const Bytes &a, const Bytes &b) const { return cmp_val(flags, a, b); }
  size_t lbk(const Bytes &k) const { // first pair with key >= k
    return std::lower_bound(f.begin(), f.end(), k, [&](auto &p, const Bytes &x) { return ck(p.first, x) < 0; }) - f.begin();
  }
  size_t ubk(const Bytes &k) const {
    return std::upper_bound(f.begin(), f.end(), k, [&](const Bytes &x, auto &p) { return ck(x, p.first) < 0; }) - f.begin();
  }
  int cp(const std::pair<Bytes, Bytes> &p, const Bytes &k, const Bytes &v) const {
    int d = ck(p.first, k);
    return d ? d : cv(p.second, v);
  }
  size_t lbp(const Bytes &k, const Bytes &v) const {
    return std::lower_bound(f.begin(), f.end(), 0, [&](auto &p, int) { return cp(p, k, v) < 0; }) - f.begin();
  }
  size_t ubp(const Bytes &k, const Bytes &v) const {
    return std::upper_bound(f.begin(), f.end(), 0, [&](int, auto &p) { return cp(p, k, v) > 0; }) - f.begin();
  }
  size_t kfirst(size_t i) const { return lbk(f[i].first); }
  size_t kend(size_t i) const { return ubk(f[i].first); } // one past the key's last pair
  bool has_key(const Bytes &k) const { return lbk(k) != ubk(k); }
};

struct Pos {
  // FRESH never positioned; AT on pair i; EOFS on pair i after a step forward hit the end of data;
  // PAST beyond the last pair after a seek; HOLLOW after a failed exact seek; UNK unspecified;
  // GONE: the pair under the cursor was deleted, the following one is among a..b (b may be the number of pairs)
  enum S { FRESH, AT, EOFS, PAST, HOLLOW, UNK, GONE } s = FRESH;
  size_t i = 0;
  size_t a = 0, b = 0;
  Bytes gk{}; // key of the deleted pair
  bool dupend = false; // AT, but the last step looked for a further value of the key and found none
  Bytes show() const {
    static const char *const t[] = {"fresh", "at", "eof-at", "past-end", "hollow", "unspecified", "deleted"};
    return Bytes(t[s]) + (s == GONE ? "(" + std::to_string(a) + ".." + std::to_string(b) + ")" : s == AT || s == EOFS ? "(" + std::to_string(i) + ")" : "");
  }
  bool on() const { return s == AT || s == EOFS; }
};
struct Alt {
  int rc;
  bool item;
  size_t i;
  Pos next;
};
struct Expect {
  std::vector<Alt> alts;
  bool adopt = false; // any existing pair or NOTFOUND/ENODATA
  bool blur = false;  // ... which leaves the position unspecified
};

inline Alt ok(size_t i, int rc = MDBX_SUCCESS) { return {rc, true, i, {Pos::AT, i}}; }
inline Alt err(int rc, Pos next) { return {rc, false, 0, next}; }

// relative operations and FIRST/LAST
inline Expect expect_step(const View &v, const Pos &p, MDBX_cursor_op op) {
  Expect e;
  const size_t n = v.n();
  const Pos unk{Pos::UNK, 0};
  if (!n) {
    e.alts = {err(MDBX_NOTFOUND, unk), err(MDBX_ENODATA, unk)};
    return e;
  }
  switch (op) {
  case MDBX_FIRST:
    e.alts = {ok(0)};
    return e;
  case MDBX_LAST:
    e.alts = {ok(n - 1)};
    return e;
  default:
    break;
  }
  if (p.s == Pos::UNK) {
    e.adopt = true;
    e.blur = op == MDBX_GET_CURRENT || op == MDBX_FIRST_DUP || op == MDBX_LAST_DUP;
    return e;
  }
  if (p.s == Pos::HOLLOW) {
    e.alts = {err(MDBX_ENODATA, p)};
    return e;
  }
  if (p.s == Pos::GONE) {
    const bool end = p.b >= n, key_left = v.has_key(p.gk);
    switch (op) {
    case MDBX_NEXT:
    case MDBX_GET_CURRENT:
      for (size_t i = p.a; i <= p.b && i < n; ++i) e.alts.push_back(ok(i));
      if (end || (op == MDBX_GET_CURRENT && key_left && v.ck(v.f[p.b].first, p.gk) != 0)) e.alts.push_back(err(MDBX_NOTFOUND, unk));
      if (end && op == MDBX_GET_CURRENT) e.alts.push_back(err(MDBX_ENODATA, unk));
      // at the end of the data or of the key's values the cursor stays on the previous pair, as it does after a NEXT that found nothing
      if (op == MDBX_GET_CURRENT && (end || v.ck(v.f[p.b].first, p.gk) != 0))
        for (size_t i = p.a; i <= p.b; ++i)
          if (i) e.alts.push_back({MDBX_SUCCESS, true, i - 1, p});
      break;
    case MDBX_NEXT_DUP:
      for (size_t i = p.a; i <= p.b && i < n; ++i)
        if (v.ck(v.f[i].first, p.gk) == 0) e.alts.push_back(ok(i));
      e.alts.push_back(err(MDBX_NOTFOUND, unk));
      break;
    case MDBX_PREV:
      for (size_t i = p.a; i <= p.b; ++i)
        if (i)
          e.alts.push_back(ok(i - 1));
        else
          e.alts.push_back(err(MDBX_NOTFOUND, unk));
      break;
    default:
      e.adopt = true;
      e.blur = op == MDBX_FIRST_DUP || op == MDBX_LAST_DUP;
    }
    return e;
  }
  const size_t i = p.i;
  const Pos eof{Pos::EOFS, i};
  switch (op) {
  case MDBX_GET_CURRENT:
    if (p.s == Pos::FRESH)
      e.alts = {err(MDBX_ENODATA, p)};
    else if (p.s == Pos::PAST) {
      e.alts = {err(MDBX_ENODATA, p), err(MDBX_NOTFOUND, p), {MDBX_SUCCESS, true, n - 1, p}};
      for (size_t j = v.kfirst(n - 1); j < n; ++j) e.alts.push_back({MDBX_SUCCESS, true, j, {Pos::UNK, 0}});
    } else
      e.alts = {{MDBX_SUCCESS, true, i, p}};
    break;
  case MDBX_FIRST_DUP:
  case MDBX_LAST_DUP:
    if (!p.on())
      e.alts = {err(MDBX_ENODATA, p)};
    else
      e.alts = {ok(op == MDBX_FIRST_DUP ? v.kfirst(i) : v.kend(i) - 1)};
    break;
  case MDBX_NEXT:
    if (p.s == Pos::FRESH)
      e.alts = {ok(0)};
    else if (p.s == Pos::PAST)
      e.alts = {err(MDBX_NOTFOUND, unk)};
    else if (i + 1 < n) {
      e.alts = {ok(i + 1)};
      if (p.s == Pos::EOFS) e.alts.push_back(err(MDBX_NOTFOUND, p));
    } else
      e.alts = {err(MDBX_NOTFOUND, eof)};
    break;
  case MDBX_NEXT_NODUP:
    if (p.s == Pos::FRESH)
      e.alts = {ok(0)};
    else if (p.s == Pos::PAST)
      e.alts = {err(MDBX_NOTFOUND, unk)};
    else if (v.kend(i) < n)
      e.alts = {ok(v.kend(i))};
    else
      e.alts = {err(MDBX_NOTFOUND, eof)};
    break;
  case MDBX_NEXT_DUP:
    if (p.s == Pos::FRESH)
      e.alts = {ok(0)};
    else if (p.s == Pos::PAST)
      e.alts = {err(MDBX_NOTFOUND, unk)};
    else if (i + 1 < v.kend(i)) {
      e.alts = {ok(i + 1)};
      if (p.s == Pos::EOFS) e.alts.push_back(err(MDBX_NOTFOUND, p));
    } else {
      e.alts = {err(MDBX_NOTFOUND, p)};
      e.alts[0].next.dupend = true;
    }
    break;
  case MDBX_PREV:
    if (p.s == Pos::FRESH || p.s == Pos::PAST)
      e.alts = {ok(n - 1)};
    else if (i)
      e.alts = {ok(i - 1)};
    else
      e.alts = {err(MDBX_NOTFOUND, {Pos::AT, i})};
    break;
  case MDBX_PREV_NODUP:
    if (p.s == Pos::FRESH || p.s == Pos::PAST)
      e.alts = {ok(n - 1)};
    else if (v.kfirst(i))
      e.alts = {ok(v.kfirst(i) - 1)};
    else
      e.alts = {err(MDBX_NOTFOUND, {Pos::AT, i})};
    break;
  case MDBX_PREV_DUP:
    if (p.s == Pos::FRESH)
      e.alts = {ok(n - 1)};
    else if (p.s == Pos::PAST)
      e.alts = {err(MDBX_NOTFOUND, p)};
    else if (i > v.kfirst(i))
      e.alts = {ok(i - 1)};
    else
      e.alts = {err(MDBX_NOTFOUND, p)};
    break;
  default:
    abort();
  }
  return e;
}

// seeks; nodata: the value argument is absent (null base)
inline Expect expect_seek(const View &v, const Pos &p, MDBX_cursor_op op, const Bytes &k, const Bytes &d, bool nodata) {
  Expect e;
  const size_t n = v.n();
  const Pos unk{Pos::UNK, 0}, hollow{n ? Pos::HOLLOW : Pos::UNK, 0}, past{n ? Pos::PAST : Pos::UNK, 0};
  const size_t lo = v.lbk(k), hi = v.ubk(k);
  const bool have = lo != hi;
  auto nf = [&](Pos q) {
    e.alts = {err(MDBX_NOTFOUND, q)};
    if (!n) e.alts.push_back(err(MDBX_ENODATA, q));
  };
  auto at = [&](size_t i) { e.alts = {ok(i)}; };
  switch (op) {
  case MDBX_SET:
  case MDBX_SET_KEY:
    have ? at(lo) : nf(hollow);
    break;
  case MDBX_SET_RANGE:
    lo < n ? at(lo) : nf(past);
    break;
  case MDBX_GET_BOTH:
  case MDBX_GET_BOTH_RANGE: {
    if (!v.dup()) {
      e.alts = {err(MDBX_INCOMPATIBLE, p)};
      break;
    }
    size_t j = v.lbp(k, d);
    if (!have)
      nf(hollow);
    else if (j < hi && (op == MDBX_GET_BOTH_RANGE || v.cp(v.f[j], k, d) == 0))
      at(j);
    else
      nf(unk);
    break;
  }
  case MDBX_SET_LOWERBOUND: {
    if (!v.dup() || nodata) {
      if (lo < n)
        e.alts = {ok(lo, have && !(v.dup() && nodata) ? MDBX_SUCCESS : MDBX_RESULT_TRUE)};
      else
        nf(past);
      break;
    }
    size_t j = v.lbp(k, d);
    if (j < n)
      e.alts = {ok(j, v.cp(v.f[j], k, d) == 0 ? MDBX_SUCCESS : MDBX_RESULT_TRUE)};
    else
      nf(past);
    break;
  }
  case MDBX_SET_UPPERBOUND: {
    size_t j = v.dup() ? (nodata ? lo : v.ubp(k, d)) : hi;
    j < n ? at(j) : nf(past);
    break;
  }
  case MDBX_TO_KEY_LESSER_THAN:
    lo ? at(lo - 1) : nf(unk);
    break;
  case MDBX_TO_KEY_LESSER_OR_EQUAL:
    have ? at(lo) : lo ? at(lo - 1) : nf(unk);
    break;
  case MDBX_TO_KEY_EQUAL:
    have ? at(lo) : nf(unk);
    break;
  case MDBX_TO_KEY_GREATER_OR_EQUAL:
    lo < n ? at(lo) : nf(past);
    break;
  case MDBX_TO_KEY_GREATER_THAN:
    hi < n ? at(hi) : nf(past);
    break;
  default: {
    // pairs
    const bool exact = op >= MDBX_TO_EXACT_KEY_VALUE_LESSER_THAN && op <= MDBX_TO_EXACT_KEY_VALUE_GREATER_THAN;
    const size_t a = exact ? lo : 0, b = exact ? hi : n;
    const int what = (int)op - (int)(exact ? MDBX_TO_EXACT_KEY_VALUE_LESSER_THAN : MDBX_TO_PAIR_LESSER_THAN);
    const size_t l = v.lbp(k, d), u = v.ubp(k, d);
    if (exact && !have) {
      nf(hollow);
      break;
    }
    switch (what) {
    case 0:
      l > a ? at(l - 1) : nf(unk);
      break;
    case 1:
      u > a ? at(u - 1) : nf(unk);
      break;
    case 2:
      l < u ? at(l) : nf(unk);
      break;
    case 3:
      l < b ? at(l) : nf(exact ? unk : past);
      break;
    case 4:
      u < b ? at(u) : nf(exact ? unk : past);
      break;
    }
  }
  }
  return e;
}

extern bool cur_lax_batch; // get_batch(NEXT) may find nothing at a pair that was the last one when the cursor came to it
struct Cur {
  MDBX_cursor *mc = nullptr;
  Pos p;
};

// compares an outcome with the expectation; returns false and fills 'why' on mismatch, else advances the position
inline bool settle(const View &v, Pos &p, const Expect &e, int rc, const MDBX_val *key, const MDBX_val *data, Bytes &why) {
  const bool got = rc == MDBX_SUCCESS || rc == MDBX_RESULT_TRUE;
  if (e.adopt) {
    if (!got) {
      if (rc == MDBX_NOTFOUND || rc == MDBX_ENODATA) return p = Pos{Pos::UNK, 0}, true;
      why = Bytes("returned ") + rcname(rc);
      return false;
    }
    if (!key || !data) return p = Pos{Pos::UNK, 0}, true;
    Bytes k = B(*key), d = B(*data);
    size_t j = v.dup() ? v.lbp(k, d) : v.lbk(k);
    if (j < v.n() && v.f[j].first == k && v.f[j].second == d) return p = e.blur ? Pos{Pos::UNK, 0} : Pos{Pos::AT, j}, true;
    why = "returned a pair that does not exist: " + show(k) + " = " + show(d);
    return false;
  }
  bool match = false;
  const Pos was = p;
  for (auto &a : e.alts) {
    if (a.rc != rc) continue;
    if (a.item) {
      if (key && !eqv(*key, v.f[a.i].first)) continue;
      if (data && !eqv(*data, v.f[a.i].second)) continue;
    }
    if (match && !(p.s == a.next.s && p.i == a.next.i)) return p = Pos{Pos::UNK, 0}, true; // ambiguous
    p = a.next;
    match = true;
    if (was.s != Pos::GONE) break;
  }
  if (match) return true;
  why = Bytes("returned ") + rcname(rc);
  if (got) {
    if (key) why += " key " + show(B(*key));
    if (data) why += " value " + show(B(*data));
  }
  why += ", expected";
  for (auto &a : e.alts) {
    why += Bytes(" | ") + rcname(a.rc);
    if (a.item) why += " key " + show(v.f[a.i].first) + " value " + show(v.f[a.i].second) + " (#" + std::to_string(a.i) + " of " + std::to_string(v.n()) + ")";
  }
  return false;
}

// one generated positioning operation on a cursor under the oracle; fails the case on disagreement
void cur_random_op(Ctx &c, Cur &cur, const View &v, const Table &tb, const MTable &m, unsigned weights_kind);
void cur_state_checks(Ctx &c, const Cur &cur, const View &v);
} // namespace kit
