#include "kit.hpp"
#include <algorithm>
#include <cmath>
using namespace kit;
const vf::Config vf::config = {
    "C28",
    "a case is one kind of number (32/64-bit integers, floats, doubles, JSON integers, doubles mixed with JSON integers) and 20..400 numbers "
    "(random bits, powers of two and neighbours, adjacent pairs, precision limits, extremes, zeroes, denormals, infinities): each is converted "
    "to a key and back, all pairs of neighbours are compared as numbers and as keys, and a table with integer keys is filled and iterated; "
    "non-trivial: at least 10 distinct numbers with both signs and a pair of adjacent ones",
    300000, 4000000};
namespace {
enum Kind { I32, I64, FLT, DBL, JSON, MIXED };
struct Num {
  Kind k;
  int64_t i = 0;
  double d = 0;
};
uint64_t dbits(double d) {
  uint64_t u;
  memcpy(&u, &d, 8);
  return u;
}
uint32_t fbits(float f) {
  uint32_t u;
  memcpy(&u, &f, 4);
  return u;
}
// exact comparison of an integer with a double
int cmp_id(int64_t i, double d) {
  if (d >= 9223372036854775808.0) return -1;
  if (d < -9223372036854775808.0) return 1;
  const int64_t t = (int64_t)d; // truncated
  if (i != t) return i < t ? -1 : 1;
  const double frac = d - (double)t;
  return frac > 0 ? -1 : frac < 0 ? 1 : 0;
}
int cmp_num(const Num &a, const Num &b) {
  const bool ai = a.k == I32 || a.k == I64 || a.k == JSON, bi = b.k == I32 || b.k == I64 || b.k == JSON;
  if (ai && bi) return a.i < b.i ? -1 : a.i > b.i;
  if (ai) return cmp_id(a.i, b.d);
  if (bi) return -cmp_id(b.i, a.d);
  return a.d < b.d ? -1 : a.d > b.d;
}
Bytes str(const Num &n) {
  char s[80];
  if (n.k == FLT || n.k == DBL)
    snprintf(s, sizeof s, "%a", n.d);
  else
    snprintf(s, sizeof s, "%lld", (long long)n.i);
  return s;
}
} // namespace
void vf::run_case(Ctx &c) {
  const Kind kind = (Kind)c.below(6);
  std::vector<Num> v;
  auto add = [&](Kind k, int64_t i, double d) {
    Num n;
    n.k = k, n.i = i, n.d = d;
    v.push_back(n);
  };
  const size_t count = 20 + c.skewed(380);
  c.plan_ops(count);
  bool adjacent = false;
  const int64_t LIM = (1ll << 53) - 1; // of JSON integers
  while (c.next_op()) {
    Kind k = kind;
    if (kind == MIXED) k = c.flip() ? JSON : DBL;
    if (k == I32 || k == I64 || k == JSON) {
      const unsigned w = k == I32 ? 32 : k == I64 ? 64 : 54;
      int64_t x;
      switch (c.weighted({4, 4, 3, 3, 2})) {
      case 0: x = (int64_t)c.below(64) - 32; break;
      case 1: x = (int64_t)(1ull << c.below(w - 1)) + (int64_t)c.below(5) - 2; break;
      case 2: x = (int64_t)(c.bits() >> c.below(64)); break;
      case 3: x = v.empty() ? 0 : (v[c.below(v.size())].k == k ? v.back().i : 7); break;
      default: x = k == I32 ? INT32_MAX : k == I64 ? INT64_MAX : LIM; x -= (int64_t)c.below(3); break;
      }
      if (c.flip()) x = (int64_t)(0 - (uint64_t)x);
      if (k == I32) x = (int32_t)x;
      bool wide = k == JSON && c.chance(1, 12); // beyond the exact range: only order and rounding are promised
      if (k == JSON && !wide && (x > LIM || x < -LIM)) x %= LIM;
      if (k == JSON && x == INT64_MIN) x = -LIM;
      add(k, x, 0);
      if (c.flip() && x != (k == I32 ? INT32_MAX : k == I64 ? INT64_MAX : LIM) && (k != JSON || (x < LIM && x >= -LIM))) add(k, x + 1, 0), adjacent = true;
    } else {
      double d;
      switch (c.weighted({4, 3, 3, 3, 2, 2})) {
      case 0: d = (double)((int64_t)c.below(200) - 100) / (double)c.one<int>({1, 2, 3, 8, 10}); break;
      case 1: d = std::ldexp(1.0, (int)c.below(k == FLT ? 277 : 2098) - (k == FLT ? 149 : 1074)); break;
      case 2: {
        uint64_t u = c.bits();
        memcpy(&d, &u, 8);
        if (k == FLT) {
          float f;
          uint32_t w = (uint32_t)u;
          memcpy(&f, &w, 4);
          d = f;
        }
        break;
      }
      case 3: d = (double)(int64_t)(c.bits() >> c.below(64)); break;
      case 4: d = c.one<double>({0.0, INFINITY, k == FLT ? (double)3.402823466e38f : 1.7976931348623157e308, k == FLT ? 1.40129846e-45 : 4.9406564584124654e-324}); break;
      default: d = std::ldexp((double)(1 + c.below(1 << 20)), (int)c.below(60) - 30); break;
      }
      if (std::isnan(d)) d = 1.5;
      if (c.flip()) d = -d;
      if (k == FLT) d = (float)d;
      add(k, 0, d);
      if (c.flip() && !std::isinf(d)) {
        double e = k == FLT ? (double)std::nextafterf((float)d, INFINITY) : std::nextafter(d, INFINITY);
        add(k, 0, e);
        adjacent = true;
      }
    }
  }
  const size_t ksize = kind == I32 || kind == FLT ? 4 : 8;
  struct Ent {
    Num n;
    uint64_t key;
  };
  std::vector<Ent> e;
  for (auto &n : v) {
    Ent x;
    x.n = n;
    MDBX_val kv;
    uint32_t k32;
    uint64_t k64;
    kv.iov_base = &k64, kv.iov_len = 8;
    // the conversions back are also given unaligned data
    char raw[16];
    const unsigned off = 4 * (unsigned)(v.size() & 1);
    switch (n.k) {
    case I32: {
      k32 = mdbx_key_from_int32((int32_t)n.i);
      memcpy(raw + off, &k32, 4);
      kv.iov_base = raw + off, kv.iov_len = 4;
      int32_t b = mdbx_int32_from_key(kv);
      if (b != n.i) c.fail("int32 %s comes back as %d", str(n).c_str(), b);
      x.key = k32;
      break;
    }
    case FLT: {
      const float f = (float)n.d;
      k32 = mdbx_key_from_float(f);
      if (k32 != mdbx_key_from_ptrfloat(&f)) c.fail("float %s: two keys", str(n).c_str());
      memcpy(raw + off, &k32, 4);
      kv.iov_base = raw + off, kv.iov_len = 4;
      float b = mdbx_float_from_key(kv);
      if (fbits(b) != fbits(f)) c.fail("float %s comes back as %a", str(n).c_str(), b);
      x.key = k32;
      break;
    }
    case I64: {
      k64 = mdbx_key_from_int64(n.i);
      memcpy(raw + off, &k64, 8);
      kv.iov_base = raw + off;
      int64_t b = mdbx_int64_from_key(kv);
      if (b != n.i) c.fail("int64 %s comes back as %lld", str(n).c_str(), (long long)b);
      x.key = k64;
      break;
    }
    case DBL: {
      k64 = mdbx_key_from_double(n.d);
      if (k64 != mdbx_key_from_ptrdouble(&n.d)) c.fail("double %s: two keys", str(n).c_str());
      memcpy(raw + off, &k64, 8);
      kv.iov_base = raw + off;
      double b = mdbx_double_from_key(kv);
      if (dbits(b) != dbits(n.d)) c.fail("double %s comes back as %a", str(n).c_str(), b);
      x.key = k64;
      if (std::fabs(n.d) <= (double)LIM) { // as an integer: a neighbour of the number
        int64_t i = mdbx_jsonInteger_from_key(kv);
        if (std::fabs((double)i - n.d) >= 1.0) c.fail("double %s is read as the JSON integer %lld", str(n).c_str(), (long long)i);
      }
      break;
    }
    default: {
      k64 = mdbx_key_from_jsonInteger(n.i);
      memcpy(raw + off, &k64, 8);
      kv.iov_base = raw + off;
      int64_t b = mdbx_jsonInteger_from_key(kv);
      const bool exact = n.i >= -LIM && n.i <= LIM;
      if (exact && b != n.i) c.fail("JSON integer %s comes back as %lld", str(n).c_str(), (long long)b);
      if (!exact && std::fabs((double)b - (double)n.i) > std::fabs((double)n.i) / 4e15) c.fail("JSON integer %s comes back as %lld", str(n).c_str(), (long long)b);
      if (k64 != mdbx_key_from_double((double)n.i)) c.fail("the keys of the JSON integer %s and of the equal double differ", str(n).c_str());
      double d = mdbx_double_from_key(kv);
      if (d != (double)n.i) c.fail("the key of the JSON integer %s is read as the double %a", str(n).c_str(), d);
      x.key = k64;
      break;
    }
    }
    TR(c, "%s -> %llx", str(n).c_str(), (unsigned long long)x.key);
    e.push_back(x);
  }
  auto exact = [&](const Num &n) { return n.k != JSON || (n.i >= -LIM && n.i <= LIM); };
  auto pairck = [&](const Ent &a, const Ent &b) {
    int n = cmp_num(a.n, b.n), k = a.key < b.key ? -1 : a.key > b.key;
    if (n == 0 && k && a.n.k != JSON && b.n.k != JSON && a.n.d == 0) n = std::signbit(a.n.d) == std::signbit(b.n.d) ? 0 : (std::signbit(a.n.d) ? -1 : 1);
    if (n == 0 && k && (a.n.k == JSON) != (b.n.k == JSON) && cmp_num(a.n, b.n) == 0 && (a.n.k == JSON ? b.n.d : a.n.d) == 0) return; // -0.0 and an integer 0
    if (exact(a.n) && exact(b.n) ? n != k : n * k < 0)
      c.fail("%s and %s compare as %d, their keys %llx and %llx as %d", str(a.n).c_str(), str(b.n).c_str(), n, (unsigned long long)a.key, (unsigned long long)b.key, k);
  };
  for (size_t i = 1; i < e.size(); ++i) pairck(e[i - 1], e[i]);
  std::stable_sort(e.begin(), e.end(), [](const Ent &a, const Ent &b) { return a.key < b.key; });
  size_t distinct = e.empty() ? 0 : 1;
  for (size_t i = 1; i < e.size(); ++i) pairck(e[i - 1], e[i]), distinct += e[i - 1].key != e[i].key;
  // in a table
  if (c.index % 8 == 0) {
    Env env;
    EnvCfg g;
    g.flags = MDBX_NOSUBDIR | MDBX_UTTERLY_NOSYNC;
    if (int rc = env.open(c, c.dir + "/db", g)) c.fail("open: %s", rcname(rc));
    MDBX_txn *t;
    MDBX_dbi d;
    auto must = [&](int rc, const char *w) {
      if (rc) c.fail("%s: %s", w, rcname(rc));
    };
    must(mdbx_txn_begin(env.env, nullptr, MDBX_TXN_READWRITE, &t), "begin");
    must(mdbx_dbi_open(t, "n", MDBX_CREATE | MDBX_INTEGERKEY, &d), "dbi_open");
    for (auto &n : v) {
      size_t at = &n - v.data();
      uint64_t k = 0;
      for (auto &x : e)
        if (cmp_num(x.n, n) == 0 && std::signbit(x.n.d) == std::signbit(n.d) && x.n.k == n.k) {
          k = x.key;
          break;
        }
      uint32_t k4 = (uint32_t)k;
      MDBX_val kk{ksize == 4 ? (void *)&k4 : (void *)&k, ksize}, vv{&at, sizeof at};
      must(mdbx_put(t, d, &kk, &vv, MDBX_UPSERT), "put");
    }
    MDBX_cursor *cur;
    must(mdbx_cursor_open(t, d, &cur), "cursor_open");
    size_t seen = 0, prev = 0;
    MDBX_val kk, vv;
    int rc;
    while ((rc = mdbx_cursor_get(cur, &kk, &vv, MDBX_NEXT)) == MDBX_SUCCESS) {
      size_t at;
      memcpy(&at, vv.iov_base, sizeof at);
      if (seen && cmp_num(v[prev], v[at]) > 0) c.fail("a table of integer keys iterates %s before %s", str(v[prev]).c_str(), str(v[at]).c_str());
      prev = at;
      ++seen;
    }
    mdbx_cursor_close(cur);
    if (rc != MDBX_NOTFOUND || seen != distinct) c.fail("iteration over %zu of %zu keys ended with %s", seen, distinct, rcname(rc));
    mdbx_txn_abort(t);
    must(env.close(), "close");
    c.label("table");
  }
  bool neg = false, pos = false;
  for (auto &x : v) (x.i < 0 || x.d < 0 ? neg : pos) = true;
  if (distinct >= 10 && neg && pos && adjacent) c.nontrivial();
}
