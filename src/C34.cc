// C34: a refused call changes nothing.
#include "hist.hpp"
#include <thread>
#include <sys/stat.h>
using namespace kit;
const vf::Config vf::config = {
    "C34",
    "a case is one generated configuration and a history of data operations, (nested) transactions and readers, interleaved with generated misuse: after each refused call the returned "
    "error is compared with the documented ones, cursors of other callers must stand where they stood, the transactions must be usable and have the contents of the model; "
    "non-trivial: at least 8 refused calls of at least 5 kinds",
    60000, 1200000};
namespace {
typedef MDBX_put_flags_t PF;
struct S : hist::H {
  using H::H;
  unsigned refused = 0;
  std::set<Bytes> kinds;
  // ---- cursors of other callers
  struct Cur {
    MDBX_cursor *k;
    Bytes tab;
    int rc;
    Bytes key, val;
  };
  std::vector<Cur> others;
  void look(Cur &x) {
    MDBX_val a, b;
    x.rc = mdbx_cursor_get(x.k, &a, &b, MDBX_GET_CURRENT);
    if (x.rc == 0) x.key = B(a), x.val = B(b);
  }
  void place(MDBX_txn *t) {
    for (unsigned n = c.below(4); n--;) {
      Table &tb = db.tabs[c.below(db.tabs.size())];
      Cur x;
      x.tab = tb.name;
      db.must(mdbx_cursor_open(t, tb.dbi, &x.k), "mdbx_cursor_open");
      Bytes key = tb.dom.gen_key_for(c, db.cur().ro(tb.name));
      MDBX_val a = V(key), b;
      switch (c.below(5)) {
      case 0: break; // not positioned
      case 1: mdbx_cursor_get(x.k, &a, &b, MDBX_LAST); break;
      case 2:
        mdbx_cursor_get(x.k, &a, &b, MDBX_LAST), mdbx_cursor_get(x.k, &a, &b, MDBX_NEXT);
        break;
      default: mdbx_cursor_get(x.k, &a, &b, MDBX_SET_RANGE); break;
      }
      look(x);
      others.push_back(x);
    }
  }
  void check_others(const char *what) {
    for (auto &x : others) {
      Cur y = x;
      look(y);
      if (y.rc != x.rc || (!x.rc && (y.key != x.key || y.val != x.val)))
        c.fail("after %s: another cursor at table %s stood at (%s) %s = %s, but is at (%s) %s = %s", what, x.tab.c_str(), rcname(x.rc), show(x.key).c_str(), show(x.val).c_str(), rcname(y.rc),
               show(y.key).c_str(), show(y.val).c_str());
    }
  }
  void drop_others() {
    for (auto &x : others) mdbx_cursor_close(x.k);
    others.clear();
  }
  void no(int rc, std::initializer_list<int> want, const char *fmt, ...) __attribute__((format(printf, 4, 5))) {
    char what[300];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(what, sizeof what, fmt, ap);
    va_end(ap);
    TR(c, "%s = %s", what, rcname(rc));
    bool ok = false;
    Bytes w;
    for (int x : want) ok |= x == rc, w += Bytes(w.empty() ? "" : " or ") + rcname(x);
    if (!ok) c.fail("%s returned %s, expected %s", what, rcname(rc), w.c_str());
    check_others(what);
    ++refused;
    kinds.insert(Bytes(what).substr(0, 24));
    c.label(rcname(rc));
  }
  static std::vector<char> &heap() {
    static std::vector<char> h(70000, 'h');
    return h;
  }
  MDBX_val big(size_t n) { return {heap().data(), n}; }
  // ---- misuse of data calls of a write transaction
  void bad_put(MDBX_txn *t) {
    Table &tb = db.tabs[c.below(db.tabs.size())];
    const MTable &m = db.cur().ro(tb.name);
    const unsigned fl = tb.dom.flags;
    const bool dup = fl & MDBX_DUPSORT;
    Bytes key = tb.dom.gen_key_for(c, m), val = tb.dom.gen_val_for(c, m, key);
    const bool has = m.has(key);
    const bool pair = has && std::find(m.m.at(key).begin(), m.m.at(key).end(), val) != m.m.at(key).end();
    MDBX_val k = V(key), v = V(val);
    const char *n = tb.name.c_str();
    const size_t kmax = mdbx_env_get_maxkeysize_ex(db.env, MDBX_db_flags_t(fl)), vmax = mdbx_env_get_maxvalsize_ex(db.env, MDBX_db_flags_t(fl));
    switch (c.below(20)) {
    case 0:
      k = big(fl & MDBX_INTEGERKEY ? c.one<size_t>({0, 1, 3, 5, 7, 9, 16}) : kmax + 1 + c.below(9));
      no(mdbx_put(t, tb.dbi, &k, &v, c.one<PF>({MDBX_UPSERT, MDBX_NOOVERWRITE, MDBX_APPEND})), {MDBX_BAD_VALSIZE}, "put with a key of %zu bytes (flags %x)", k.iov_len, fl);
      break;
    case 1:
      if (dup)
        v = big(fl & MDBX_INTEGERDUP ? c.one<size_t>({0, 1, 3, 5, 7, 9}) : vmax + 1 + c.below(9));
      else
        v = big(vmax + 1 + c.below(9));
      no(mdbx_put(t, tb.dbi, &k, &v, MDBX_UPSERT), {MDBX_BAD_VALSIZE}, "put with a value of %zu bytes (flags %x)", v.iov_len, fl);
      break;
    case 2:
      if (!(fl & MDBX_DUPFIXED) || m.items == 0) break;
      v = big(m.m.begin()->second[0].size() + (c.flip() ? 1 : -1));
      no(mdbx_put(t, tb.dbi, &k, &v, MDBX_UPSERT), {MDBX_BAD_VALSIZE}, "put with a value of %zu bytes into fixed ones (flags %x)", v.iov_len, fl);
      break;
    case 3: {
      if (!has) break;
      const MTable &mm = m;
      no(mdbx_put(t, tb.dbi, &k, &v, MDBX_NOOVERWRITE), {MDBX_KEYEXIST}, "put(NOOVERWRITE) %s %s", n, show(key).c_str());
      if (B(v) != mm.m.at(key)[0]) c.fail("put(NOOVERWRITE) returned %s as the present value, expected %s", show(B(v)).c_str(), show(mm.m.at(key)[0]).c_str());
      break;
    }
    case 4:
      if (!pair || !dup) break;
      no(mdbx_put(t, tb.dbi, &k, &v, MDBX_NODUPDATA), {MDBX_KEYEXIST}, "put(NODUPDATA) %s %s", n, show(key).c_str());
      break;
    case 5:
      if (has) break;
      no(mdbx_put(t, tb.dbi, &k, &v, MDBX_CURRENT), {MDBX_NOTFOUND}, "put(CURRENT) %s %s", n, show(key).c_str());
      break;
    case 6:
      if (m.m.empty() || cmp_key(fl, key, m.m.rbegin()->first) >= 0) break;
      no(mdbx_put(t, tb.dbi, &k, &v, MDBX_APPEND), {MDBX_EKEYMISMATCH}, "put(APPEND) %s %s", n, show(key).c_str());
      break;
    case 7:
      if (!dup || !has || cmp_val(fl, val, m.m.at(key).back()) >= 0) break;
      no(mdbx_put(t, tb.dbi, &k, &v, MDBX_APPENDDUP), {MDBX_EKEYMISMATCH}, "put(APPENDDUP) %s %s", n, show(key).c_str());
      break;
    case 8:
      no(mdbx_put(t, tb.dbi, &k, &v, PF(c.one<unsigned>({0x100, 0x200, 1, 4, 8}))), {MDBX_EINVAL}, "put with unknown flags");
      break;
    case 9:
      if (dup)
        no(mdbx_put(t, tb.dbi, &k, &v, MDBX_RESERVE), {MDBX_INCOMPATIBLE, MDBX_EINVAL}, "put(RESERVE) of multi-values");
      else
        no(mdbx_put(t, tb.dbi, &k, &v, c.one<PF>({MDBX_MULTIPLE, PF(MDBX_MULTIPLE | MDBX_NODUPDATA)})), {MDBX_INCOMPATIBLE, MDBX_EINVAL, MDBX_KEYEXIST}, "put with a multi-value flag to %s", n);
      break;
    case 10: {
      MDBX_val a[2] = {v, {nullptr, 1}};
      if (fl & MDBX_DUPFIXED) break;
      no(mdbx_put(t, tb.dbi, &k, a, MDBX_MULTIPLE), {MDBX_INCOMPATIBLE, MDBX_EINVAL}, "put(MULTIPLE) to %s", n);
      break;
    }
    case 11: no(c.flip() ? mdbx_put(t, tb.dbi, nullptr, &v, MDBX_UPSERT) : mdbx_put(t, tb.dbi, &k, nullptr, MDBX_UPSERT), {MDBX_EINVAL}, "put without an argument"); break;
    case 12: no(mdbx_put(t, c.one<MDBX_dbi>({77, 0xFFFF, 0xFFFFFFFF, 32765}), &k, &v, MDBX_UPSERT), {MDBX_BAD_DBI}, "put with a bad handle"); break;
    case 13: // the table of free pages
      no(mdbx_put(t, 0, &k, &v, MDBX_UPSERT), {MDBX_BAD_DBI, MDBX_EPERM, MDBX_EACCESS, MDBX_BAD_VALSIZE, MDBX_EINVAL}, "put to the GC");
      break;
    case 14:
      if (has) break;
      no(mdbx_del(t, tb.dbi, &k, nullptr), {MDBX_NOTFOUND}, "del of an absent key");
      break;
    case 15:
      if (pair || !dup) break;
      no(mdbx_del(t, tb.dbi, &k, &v), {MDBX_NOTFOUND}, "del of an absent pair");
      break;
    case 16: no(c.flip() ? mdbx_del(t, tb.dbi, nullptr, nullptr) : mdbx_del(t, 78, &k, nullptr), {MDBX_EINVAL, MDBX_BAD_DBI}, "del with bad arguments"); break;
    case 17: {
      MDBX_val old{nullptr, 0};
      if (has) {
        old = V(val);
        no(mdbx_replace(t, tb.dbi, &k, &old, &old, MDBX_UPSERT), {MDBX_EINVAL}, "replace with the same descriptors");
      } else
        no(mdbx_replace(t, tb.dbi, &k, nullptr, nullptr, MDBX_UPSERT), {MDBX_EINVAL}, "replace without descriptors");
      break;
    }
    case 18: {
      MDBX_val old{nullptr, 0};
      if (has) break;
      char buf[64];
      old = {buf, sizeof buf};
      no(mdbx_replace(t, tb.dbi, &k, &v, &old, MDBX_CURRENT), {MDBX_NOTFOUND}, "replace(CURRENT) of an absent key");
      break;
    }
    default: {
      if (!has) break;
      if (!dup) { // a buffer which is too small for the present value of a dirty page
        break;
      }
      no(mdbx_put(t, tb.dbi, &k, &v, PF(MDBX_NOOVERWRITE | MDBX_NODUPDATA)), {MDBX_KEYEXIST}, "put(NOOVERWRITE|NODUPDATA)");
      break;
    }
    }
  }
  void bad_cursor(MDBX_txn *t, bool ro) {
    Table &tb = db.tabs[c.below(db.tabs.size())];
    const MTable &m = db.cur().ro(tb.name);
    const unsigned fl = tb.dom.flags;
    const bool dup = fl & MDBX_DUPSORT;
    Bytes key = tb.dom.gen_key(c), val = tb.dom.gen_val(c);
    MDBX_val k = V(key), v = V(val);
    MDBX_cursor *q = nullptr;
    db.must(mdbx_cursor_open(t, tb.dbi, &q), "mdbx_cursor_open");
    size_t n = 0;
    switch (c.below(17)) {
    case 15: // replacing one of several values by another present one
      if (ro || !dup) break;
      for (auto &e : m.m)
        if (e.second.size() > 1) {
          MDBX_val a = V(e.first), b = V(e.second[0]), o = V(e.second[1 + c.below(e.second.size() - 1)]);
          if (c.flip()) { // replacing by an appended value, which is not the last one
            const size_t i = c.below(e.second.size()), last = e.second.size() - (i + 1 == e.second.size() ? 2 : 1);
            if (cmp_val(fl, val, e.second[last]) >= 0 || cmp_val(fl, val, e.second[i]) == 0 || (fl & MDBX_DUPFIXED && val.size() != e.second[0].size())) continue;
            b = V(e.second[i]);
            db.must(mdbx_cursor_get(q, &a, &b, MDBX_GET_BOTH), "GET_BOTH");
            no(mdbx_cursor_put(q, &a, &v, PF(MDBX_CURRENT | MDBX_APPENDDUP)), {MDBX_EKEYMISMATCH}, "cursor_put(CURRENT|APPENDDUP) of a lesser value");
            check_model(t, db.cur(), "after a refused cursor_put(CURRENT|APPENDDUP)");
            break;
          }
          db.must(mdbx_cursor_get(q, &a, &b, MDBX_GET_BOTH), "GET_BOTH");
          no(mdbx_cursor_put(q, &a, &o, PF(MDBX_CURRENT | MDBX_NODUPDATA)), {MDBX_KEYEXIST}, "cursor_put(CURRENT|NODUPDATA) of another present value");
          check_model(t, db.cur(), "after a refused cursor_put(CURRENT|NODUPDATA)");
          break;
        }
      break;
    case 0: no(mdbx_cursor_get(q, &k, &v, c.one<MDBX_cursor_op>({MDBX_GET_CURRENT, MDBX_LAST_DUP, MDBX_FIRST_DUP})), {MDBX_ENODATA, MDBX_NOTFOUND, MDBX_INCOMPATIBLE}, "cursor_get of a cursor without position"); break;
    case 1:
      if (ro)
        no(mdbx_cursor_del(q, MDBX_CURRENT), {MDBX_EACCESS}, "cursor_del in a read transaction");
      else
        no(mdbx_cursor_del(q, MDBX_CURRENT), {MDBX_ENODATA, MDBX_NOTFOUND}, "cursor_del of a cursor without position");
      break;
    case 2: no(mdbx_cursor_count(q, &n), {MDBX_SUCCESS, MDBX_ENODATA, MDBX_EINVAL, MDBX_NOTFOUND}, "cursor_count of a cursor without position");
      if (n) c.fail("%zu values at a cursor without position", n);
      break;
    case 3:
      if (ro)
        no(mdbx_cursor_put(q, &k, &v, MDBX_UPSERT), {MDBX_EACCESS}, "cursor_put in a read transaction");
      else
        no(mdbx_cursor_put(q, &k, &v, MDBX_CURRENT), {MDBX_ENODATA, MDBX_NOTFOUND}, "cursor_put(CURRENT) of a cursor without position");
      break;
    case 4:
      if (ro || m.items < 2) break;
      {
        MDBX_val a, b;
        if (mdbx_cursor_get(q, &a, &b, MDBX_FIRST)) break;
        Bytes first = B(a);
        if (cmp_key(fl, key, first) == 0) break;
        no(mdbx_cursor_put(q, &k, &v, MDBX_CURRENT), {MDBX_EKEYMISMATCH}, "cursor_put(CURRENT) with another key");
        db.must(mdbx_cursor_get(q, &a, &b, MDBX_GET_CURRENT), "GET_CURRENT after a refused cursor_put(CURRENT)");
        if (B(a) != first) c.fail("a refused cursor_put(CURRENT) moved the cursor");
      }
      break;
    case 5: no(mdbx_cursor_get(q, &k, &v, MDBX_cursor_op(c.one<int>({100, 12345, -1}))), {MDBX_EINVAL}, "cursor_get with an unknown operation"); break;
    case 6:
      if (dup) break;
      no(mdbx_cursor_get(q, &k, &v, c.one<MDBX_cursor_op>({MDBX_GET_MULTIPLE, MDBX_NEXT_MULTIPLE, MDBX_PREV_MULTIPLE})), {MDBX_INCOMPATIBLE}, "cursor_get of multi-values from a plain table");
      break;
    case 7:
      if (dup) break;
      no(mdbx_cursor_get(q, &k, &v, c.one<MDBX_cursor_op>({MDBX_GET_BOTH, MDBX_GET_BOTH_RANGE})), {MDBX_INCOMPATIBLE, MDBX_NOTFOUND}, "cursor_get of a pair from a plain table");
      break;
    case 8: no(mdbx_cursor_get(q, nullptr, &v, c.one<MDBX_cursor_op>({MDBX_SET, MDBX_SET_KEY, MDBX_SET_RANGE})), {MDBX_EINVAL}, "cursor_get without a key"); break;
    case 9: {
      MDBX_cursor *u = mdbx_cursor_create(nullptr);
      no(c.flip() ? mdbx_cursor_get(u, &k, &v, MDBX_FIRST) : mdbx_cursor_count(u, &n), {MDBX_EINVAL}, "use of an unbound cursor");
      no(mdbx_cursor_bind(t, u, 4444), {MDBX_BAD_DBI}, "cursor_bind with a bad handle");
      no(mdbx_cursor_copy(u, q), {MDBX_EINVAL}, "cursor_copy of an unbound cursor");
      mdbx_cursor_close(u);
      break;
    }
    case 10: no(mdbx_cursor_get(nullptr, &k, &v, MDBX_FIRST), {MDBX_EINVAL}, "cursor_get of a null cursor"); break;
    case 11: {
      MDBX_cursor *u = nullptr;
      no(mdbx_cursor_open(t, 5555, &u), {MDBX_BAD_DBI}, "cursor_open with a bad handle");
      if (u) c.fail("a refused cursor_open returned a cursor");
      break;
    }
    case 12:
      if (m.has(key)) break;
      no(mdbx_cursor_get(q, &k, &v, c.one<MDBX_cursor_op>({MDBX_SET, MDBX_SET_KEY})), {MDBX_NOTFOUND}, "cursor_get of an absent key");
      break;
    case 13: {
      ptrdiff_t d;
      no(mdbx_estimate_distance(q, q, &d), {MDBX_ENODATA, MDBX_EINVAL}, "estimate_distance of cursors without position");
      break;
    }
    case 14: {
      size_t cnt = 0;
      MDBX_val pp[4];
      no(mdbx_cursor_get_batch(q, &cnt, pp, c.one<size_t>({0, 1, 2, 3, 5}) > 3 ? 3 : 2, MDBX_FIRST), {MDBX_EINVAL}, "cursor_get_batch with a tiny buffer");
      break;
    }
    default:
      if (ro) break;
      no(mdbx_cursor_del(q, PF(c.one<unsigned>({0x100, 0x10, MDBX_RESERVE, MDBX_APPEND}))), {MDBX_EINVAL, MDBX_ENODATA}, "cursor_del with unknown flags");
    }
    mdbx_cursor_close(q);
  }
  void bad_table(MDBX_txn *t, bool ro) {
    Table &tb = db.tabs[c.below(db.tabs.size())];
    const unsigned fl = tb.dom.flags;
    MDBX_dbi d = 0;
    MDBX_val k{(void *)"k", 1}, v{(void *)"v", 1};
    switch (c.below(14)) {
    case 0:
      if (mainonly) break;
      no(mdbx_dbi_open(t, "absent", MDBX_DB_DEFAULTS, &d), {MDBX_NOTFOUND}, "dbi_open of an absent table");
      break;
    case 1: {
      const unsigned bad = c.one<unsigned>({MDBX_DUPFIXED, MDBX_INTEGERDUP, MDBX_REVERSEDUP, MDBX_INTEGERKEY | MDBX_REVERSEKEY, MDBX_DUPSORT | MDBX_INTEGERDUP | MDBX_REVERSEDUP, 0x80, 0x800000});
      if (mainonly) break;
      no(mdbx_dbi_open(t, "absent2", MDBX_db_flags_t(bad | (ro ? 0 : MDBX_CREATE)), &d), {MDBX_EINVAL, MDBX_INCOMPATIBLE}, "dbi_open with bad flags %x", bad);
      break;
    }
    case 2: {
      if (mainonly || ro) break;
      MDBX_val nm = big(mdbx_env_get_maxkeysize_ex(db.env, MDBX_DB_DEFAULTS) + 1);
      no(mdbx_dbi_open2(t, &nm, MDBX_CREATE, &d), {MDBX_EINVAL, MDBX_BAD_VALSIZE}, "dbi_open of an oversized name");
      break;
    }
    case 3: {
      unsigned other = fl ^ MDBX_REVERSEKEY;
      if (other & MDBX_INTEGERKEY) other &= ~MDBX_REVERSEKEY, other ^= MDBX_INTEGERKEY;
      no(mdbx_dbi_open(t, tb.name.empty() ? nullptr : tb.name.c_str(), MDBX_db_flags_t(other), &d), {MDBX_INCOMPATIBLE}, "dbi_open with other flags");
      break;
    }
    case 4: no(mdbx_drop(t, 999, c.flip()), {MDBX_BAD_DBI, ro ? MDBX_EACCESS : MDBX_BAD_DBI}, "drop with a bad handle"); break;
    case 5: no(mdbx_dbi_close(db.env, c.one<MDBX_dbi>({0, 999, 0xFFFFFFF0})), {MDBX_BAD_DBI}, "dbi_close with a bad handle"); break;
    case 6: {
      unsigned f, s;
      no(mdbx_dbi_flags_ex(t, 999, &f, &s), {MDBX_BAD_DBI}, "dbi_flags with a bad handle");
      MDBX_stat st;
      no(mdbx_dbi_stat(t, 999, &st, sizeof st), {MDBX_BAD_DBI}, "dbi_stat with a bad handle");
      no(mdbx_dbi_stat(t, tb.dbi, &st, 3), {MDBX_EINVAL}, "dbi_stat with a bad size");
      break;
    }
    case 7: no(mdbx_get(t, tb.dbi, nullptr, &v), {MDBX_EINVAL}, "get without a key"); break;
    case 8: no(mdbx_get(t, 999, &k, &v), {MDBX_BAD_DBI}, "get with a bad handle"); break;
    case 9: {
      uint64_t r = 0;
      if (ro)
        no(mdbx_dbi_sequence(t, tb.dbi, &r, 1), {MDBX_EACCESS}, "dbi_sequence in a read transaction");
      else if (db.cur().ro(tb.name).seq)
        no(mdbx_dbi_sequence(t, tb.dbi, &r, UINT64_MAX), {MDBX_RESULT_TRUE}, "dbi_sequence overflow");
      break;
    }
    case 10:
      if (ro || mainonly || tb.name.empty() || db.tabs.size() < 2) break;
      for (auto &o : db.tabs)
        if (!o.name.empty() && o.name != tb.name) {
          no(mdbx_dbi_rename(t, tb.dbi, o.name.c_str()), {MDBX_KEYEXIST}, "dbi_rename to an existing name");
          break;
        }
      break;
    case 11:
      if (ro || mainonly) break;
      no(mdbx_dbi_rename(t, 999, "zz"), {MDBX_BAD_DBI}, "dbi_rename with a bad handle");
      break;
    case 12:
      if (mainonly || ro) break;
      no(mdbx_dbi_open(t, nullptr, MDBX_db_flags_t(MDBX_CREATE | (0x80)), &d), {MDBX_EINVAL}, "dbi_open of the main table with bad flags");
      break;
    default: {
      MDBX_val z = V(tb.name);
      if (mainonly || tb.name.empty()) break;
      // a named table is not an item of the main one
      Bytes nn = tb.name;
      MDBX_val nk = V(nn);
      if (ro)
        no(mdbx_put(t, 1, &nk, &v, MDBX_UPSERT), {MDBX_EACCESS, MDBX_BAD_DBI}, "put to the main table in a read transaction");
      (void)z;
    }
    }
  }
  void bad_read_txn(MDBX_txn *t) { // changes through a read transaction
    Table &tb = db.tabs[c.below(db.tabs.size())];
    Bytes key = tb.dom.gen_key(c), val = tb.dom.gen_val(c);
    MDBX_val k = V(key), v = V(val), old = v;
    MDBX_dbi d;
    MDBX_canary y{1, 2, 3, 4};
    MDBX_txn *x = nullptr;
    switch (c.below(11)) {
    case 0: no(mdbx_put(t, tb.dbi, &k, &v, MDBX_UPSERT), {MDBX_EACCESS}, "put in a read transaction"); break;
    case 1: no(mdbx_del(t, tb.dbi, &k, nullptr), {MDBX_EACCESS}, "del in a read transaction"); break;
    case 2: no(mdbx_drop(t, tb.dbi, c.flip()), {MDBX_EACCESS}, "drop in a read transaction"); break;
    case 3: no(mdbx_canary_put(t, &y), {MDBX_EACCESS}, "canary_put in a read transaction"); break;
    case 4:
      if (!mainonly) no(mdbx_dbi_open(t, "newtab", MDBX_CREATE, &d), {MDBX_EACCESS}, "dbi_open(CREATE) in a read transaction");
      break;
    case 5: no(mdbx_replace(t, tb.dbi, &k, nullptr, &old, MDBX_CURRENT), {MDBX_EACCESS, MDBX_EINVAL}, "replace in a read transaction"); break;
    case 6:
      no(mdbx_txn_begin(db.env, t, MDBX_TXN_READWRITE, &x), {MDBX_BAD_TXN, MDBX_EACCESS, MDBX_EINVAL, MDBX_TXN_OVERLAPPING, MDBX_BUSY, MDBX_INCOMPATIBLE}, "begin of a write transaction nested into a reading one");
      if (x) c.fail("a refused mdbx_txn_begin() returned a transaction");
      break;
    case 7: no(mdbx_txn_commit_embark_read(&t, nullptr), {MDBX_SUCCESS, MDBX_RESULT_TRUE, MDBX_EACCESS, MDBX_EINVAL, MDBX_BAD_TXN}, "commit_embark_read of a read transaction"); break;
    case 8: no(mdbx_txn_begin(db.env, nullptr, MDBX_txn_flags_t(MDBX_TXN_RDONLY | 4), &x), {MDBX_EINVAL}, "begin with unknown flags"); break;
    case 9: no(mdbx_txn_unpark(t, c.flip()), {MDBX_SUCCESS, MDBX_BAD_TXN, MDBX_EINVAL}, "unpark of a transaction which is not parked"); break;
    default: no(mdbx_txn_checkpoint(t, MDBX_TXN_NOWEAKING, nullptr), {MDBX_RESULT_TRUE, MDBX_EACCESS, MDBX_EINVAL, MDBX_BAD_TXN}, "checkpoint of a read transaction");
    }
  }
  void bad_txn() {
    MDBX_txn *t = db.txn(), *x = nullptr;
    const bool sticky = !(db.cfg.flags & MDBX_NOSTICKYTHREADS);
    switch (c.below(13)) {
    case 0:
      no(mdbx_txn_begin(db.env, nullptr, c.flip() ? MDBX_TXN_READWRITE : MDBX_TXN_TRY, &x), {MDBX_BUSY, MDBX_TXN_OVERLAPPING, MDBX_BAD_TXN}, "begin of a second write transaction in the same thread");
      if (x) c.fail("a refused mdbx_txn_begin() returned a transaction");
      break;
    case 1:
      if (!sticky) break;
      no(mdbx_txn_begin(db.env, nullptr, MDBX_TXN_RDONLY, &x), {MDBX_TXN_OVERLAPPING, MDBX_BUSY}, "begin of a read transaction during the write transaction of the same thread");
      if (x) c.fail("a refused mdbx_txn_begin() returned a transaction");
      break;
    case 2:
      if (!(db.cfg.flags & MDBX_WRITEMAP)) break;
      no(mdbx_txn_begin(db.env, t, MDBX_TXN_READWRITE, &x), {MDBX_INCOMPATIBLE}, "begin of a nested transaction with WRITEMAP");
      break;
    case 3: no(mdbx_txn_begin(db.env, t, MDBX_txn_flags_t(c.one<unsigned>({1, 0x2, 0x100, 0x4000}))  , &x), {MDBX_EINVAL, MDBX_BAD_TXN, MDBX_INCOMPATIBLE}, "begin with unknown flags"); break;
    case 4: no(mdbx_txn_reset(t), {MDBX_EINVAL, MDBX_BAD_TXN, MDBX_INCOMPATIBLE}, "reset of a write transaction"); break;
    case 5: no(mdbx_txn_renew(t), {MDBX_EINVAL, MDBX_BAD_TXN, MDBX_BUSY}, "renew of a write transaction"); break;
    case 6: no(mdbx_txn_park(t, c.flip()), {MDBX_BAD_TXN, MDBX_EINVAL, MDBX_TXN_INVALID}, "park of a write transaction"); break;
    case 7:
      if (db.tx.size() < 2) break;
      {
        MDBX_txn *p = db.tx[c.below(db.tx.size() - 1)];
        Table &tb = db.tabs[c.below(db.tabs.size())];
        Bytes key = tb.dom.gen_key(c), val = tb.dom.gen_val(c);
        MDBX_val k = V(key), v = V(val), w;
        switch (c.below(5)) {
        case 0: no(mdbx_put(p, tb.dbi, &k, &v, MDBX_UPSERT), {MDBX_BAD_TXN}, "put to a transaction with a nested one"); break;
        case 1: no(mdbx_get(p, tb.dbi, &k, &w), {MDBX_BAD_TXN}, "get from a transaction with a nested one"); break;
        case 2: no(mdbx_drop(p, tb.dbi, false), {MDBX_BAD_TXN}, "drop in a transaction with a nested one"); break;
        case 3: no(mdbx_txn_begin(db.env, p, MDBX_TXN_READWRITE, &x), {MDBX_BAD_TXN}, "a second nested transaction"); break;
        default: {
          MDBX_cursor *q = nullptr;
          no(mdbx_cursor_open(p, tb.dbi, &q), {MDBX_BAD_TXN}, "cursor_open in a transaction with a nested one");
        }
        }
      }
      break;
    case 8:
      if (!sticky) break;
      {
        Table &tb = db.tabs[c.below(db.tabs.size())];
        Bytes key = tb.dom.gen_key(c), val = tb.dom.gen_val(c);
        const unsigned what = c.below(6);
        int rc = 0;
        std::thread([&] {
          MDBX_val k = V(key), v = V(val), w;
          switch (what) {
          case 0: rc = mdbx_put(t, tb.dbi, &k, &v, MDBX_UPSERT); break;
          case 1: rc = mdbx_get(t, tb.dbi, &k, &w); break;
          case 2: rc = mdbx_txn_commit(t); break;
          case 3: rc = mdbx_txn_abort(t); break;
          case 4: rc = mdbx_drop(t, tb.dbi, true); break;
          default: rc = mdbx_txn_begin(db.env, nullptr, MDBX_TXN_TRY, &x); break;
          }
        }).join();
        if (what == 5)
          no(rc, {MDBX_BUSY}, "begin(TRY) by another thread");
        else
          no(rc, {MDBX_THREAD_MISMATCH}, "call %u by another thread", what);
      }
      break;
    case 9: no(c.flip() ? mdbx_txn_commit(nullptr) : mdbx_txn_abort(nullptr), {MDBX_EINVAL}, "commit or abort of a null transaction"); break;
    case 10: no(mdbx_txn_amend(t, &x, MDBX_TXN_READWRITE, nullptr), {MDBX_EINVAL, MDBX_BAD_TXN, MDBX_BUSY}, "amend of a write transaction"); break;
    case 11: {
      MDBX_txn_info i;
      (void)i;
      no(mdbx_txn_refresh(t), {MDBX_EINVAL, MDBX_BAD_TXN}, "refresh of a write transaction");
      break;
    }
    default: no(mdbx_env_sync_ex(nullptr, true, false), {MDBX_EINVAL}, "env_sync of null");
    }
  }
  void bad_env() {
    uint64_t was = 0, now = 0;
    switch (c.below(12)) {
    case 0: {
      struct {
        MDBX_option_t o;
        uint64_t v;
      } bad[] = {{MDBX_opt_merge_threshold, 5}, {MDBX_opt_merge_threshold, 70000}, {MDBX_opt_spill_max_denominator, 256}, {MDBX_opt_spill_min_denominator, 300}, {MDBX_opt_loose_limit, 256},
                 {MDBX_opt_subpage_limit, 65537}, {MDBX_opt_txn_dp_limit, 1}, {MDBX_option_t(99), 1}, {MDBX_opt_max_db, 5}, {MDBX_opt_max_readers, 5}, {MDBX_opt_split_reserve, 40000}};
      auto &b = bad[c.below(sizeof bad / sizeof bad[0])];
      int g = mdbx_env_get_option(db.env, b.o, &was);
      no(mdbx_env_set_option(db.env, b.o, b.v), {MDBX_EINVAL, MDBX_EPERM}, "set_option %d = %llu", b.o, (unsigned long long)b.v);
      if (!g) {
        db.must(mdbx_env_get_option(db.env, b.o, &now), "mdbx_env_get_option");
        if (was != now) c.fail("a refused set_option %d changed the value from %llu to %llu", b.o, (unsigned long long)was, (unsigned long long)now);
      }
      break;
    }
    case 1: no(mdbx_env_open(db.env, db.path.c_str(), MDBX_ENV_DEFAULTS, 0644), {MDBX_EPERM}, "open of an open environment"); break;
    case 2: no(mdbx_env_set_flags(db.env, c.one<MDBX_env_flags_t>({MDBX_RDONLY, MDBX_WRITEMAP, MDBX_EXCLUSIVE, MDBX_NOSUBDIR, MDBX_env_flags_t(1)}), c.flip()), {MDBX_EPERM, MDBX_EINVAL}, "set_flags of unchangeable flags"); break;
    case 3: {
      MDBX_envinfo a, b;
      db.must(mdbx_env_info_ex(db.env, nullptr, &a, sizeof a), "mdbx_env_info_ex");
      struct {
        intptr_t a[6];
      } bad[] = {{{1 << 20, -1, 1 << 19, -1, -1, -1}}, {{-1, -1, -1, -1, -1, 12345}}, {{-1, -1, INTPTR_MAX, -1, -1, 1}}, {{-1, -1, -1, -1, -1, db.cfg.ps == 4096 ? 512 : 4096}}, {{-1, -1, (intptr_t)(a.mi_last_pgno * db.cfg.ps / 2), -1, -1, -1}},
                 {{INTPTR_MAX / 2, -1, -1, -1, -1, -1}}};
      auto &x = bad[c.below(6)].a;
      int rc = mdbx_env_set_geometry(db.env, x[0], x[1], x[2], x[3], x[4], x[5]);
      no(rc, {MDBX_EINVAL, MDBX_TOO_LARGE, MDBX_MAP_FULL, MDBX_INCOMPATIBLE}, "set_geometry %zd %zd %zd, page %zd", x[0], x[1], x[2], x[5]);
      db.must(mdbx_env_info_ex(db.env, nullptr, &b, sizeof b), "mdbx_env_info_ex");
      if (a.mi_geo.lower != b.mi_geo.lower || a.mi_geo.upper != b.mi_geo.upper || a.mi_geo.grow != b.mi_geo.grow || a.mi_geo.shrink != b.mi_geo.shrink || a.mi_geo.current != b.mi_geo.current)
        c.fail("a refused set_geometry changed the geometry");
      break;
    }
    case 4: {
      MDBX_stat st;
      no(mdbx_env_stat_ex(db.env, nullptr, &st, 3), {MDBX_EINVAL}, "env_stat with a bad size");
      MDBX_envinfo i;
      no(mdbx_env_info_ex(db.env, nullptr, &i, 5), {MDBX_EINVAL}, "env_info with a bad size");
      break;
    }
    case 5: {
      Bytes f = c.dir + "/exists";
      write_file(f, "precious");
      no(mdbx_env_copy(db.env, f.c_str(), MDBX_CP_DEFAULTS), {EEXIST, MDBX_TXN_OVERLAPPING, MDBX_BUSY, MDBX_BAD_RSLOT}, "env_copy onto an existing file");
      if (read_file(f) != "precious") c.fail("a refused env_copy changed the file");
      break;
    }
    case 6:
      if (db.tx.empty()) break;
      if (!(db.cfg.flags & MDBX_NOSTICKYTHREADS)) {
        int rc = 0;
        std::thread([&] { rc = mdbx_env_close_ex(db.env, false); }).join();
        no(rc, {MDBX_BUSY}, "env_close by another thread during a write transaction");
      }
      break;
    case 7: no(mdbx_env_set_userctx(nullptr, nullptr), {MDBX_EINVAL}, "set_userctx of null"); break;
    case 8: no(mdbx_env_set_hsr(nullptr, nullptr), {MDBX_EINVAL}, "set_hsr of null"); break;
    case 9: {
      Bytes nowhere = c.dir + "/nowhere/at/all";
      MDBX_env *e = nullptr;
      db.must(mdbx_env_create(&e), "mdbx_env_create");
      no(mdbx_env_open(e, nowhere.c_str(), c.flip() ? MDBX_RDONLY : MDBX_ACCEDE, 0), {MDBX_ENOFILE, ENOENT}, "open of an absent database");
      MDBX_txn *t = nullptr;
      no(mdbx_txn_begin(e, nullptr, MDBX_TXN_RDONLY, &t), {MDBX_EPERM, MDBX_EINVAL}, "begin in an environment which is not open");
      db.must(mdbx_env_close(e), "mdbx_env_close");
      struct stat st;
      if (!stat(nowhere.c_str(), &st)) c.fail("a refused opening created a file");
      break;
    }
    case 10: {
      MDBX_env *e = nullptr;
      db.must(mdbx_env_create(&e), "mdbx_env_create");
      no(mdbx_env_open(e, db.path.c_str(), MDBX_ENV_DEFAULTS, 0), {MDBX_BUSY, EAGAIN}, "a second open of the database in the same process");
      db.must(mdbx_env_close(e), "mdbx_env_close");
      break;
    }
    default: {
      int dead = 0;
      (void)dead;
      no(mdbx_env_delete(db.path.c_str(), MDBX_ENV_ENSURE_UNUSED), {MDBX_BUSY, EAGAIN}, "env_delete of a database in use");
    }
    }
  }
  // the first put of an empty table is refused: the sizes of its items must stay free to choose
  bool fresh() {
    if (mainonly) return true;
    Bytes n = "f0";
    Model &m = db.cur();
    if (m.t.count(n)) return true;
    const unsigned fl = c.one<unsigned>({MDBX_INTEGERKEY, MDBX_DUPSORT | MDBX_DUPFIXED, MDBX_DUPSORT | MDBX_DUPFIXED | MDBX_INTEGERDUP, MDBX_INTEGERKEY | MDBX_DUPSORT | MDBX_DUPFIXED,
                                       MDBX_INTEGERKEY | MDBX_DUPSORT | MDBX_DUPFIXED | MDBX_INTEGERDUP});
    touched.insert(n);
    MDBX_dbi d = 0;
    int rc = mdbx_dbi_open(db.txn(), n.c_str(), MDBX_db_flags_t(fl | MDBX_CREATE), &d);
    TR(c, "dbi_open %s flags=%x -> %s", n.c_str(), fl, rcname(rc));
    if (db.full(rc)) return false;
    db.must(rc, "mdbx_dbi_open(CREATE)");
    m.t[n] = std::make_shared<MTable>(fl);
    const bool ik = fl & MDBX_INTEGERKEY, fd = fl & MDBX_DUPFIXED;
    const size_t a = c.flip() ? 4 : 8, b = 12 - a;
    bool aborted = false;
    uint64_t q[4] = {5, 6, 7, 8};
    for (unsigned i = 1 + c.below(3); i--;) {
      MDBX_val k{q, a}, v{q + 1, a};
      switch (c.below(5)) {
      case 4: { // a put which is aborted together with a nested transaction
        MDBX_txn *x = nullptr;
        if ((db.cfg.flags & MDBX_WRITEMAP) || c.below(12)) break;
        rc = mdbx_txn_begin(db.env, db.txn(), MDBX_TXN_READWRITE, &x);
        if (db.full(rc)) return false;
        db.must(rc, "mdbx_txn_begin(nested)");
        rc = mdbx_put(x, d, &k, &v, MDBX_UPSERT);
        TR(c, "aborted put of %zu bytes -> %s", a, rcname(rc));
        if (rc && rc != MDBX_MAP_FULL && rc != MDBX_TXN_FULL) c.fail("a put of %zu bytes into an empty table in a nested transaction returned %s", a, rcname(rc));
        db.must(mdbx_txn_abort(x), "mdbx_txn_abort");
        if (rc) return false;
        aborted = true;
        c.label("aborted first put");
        break;
      }
      case 0: no(mdbx_put(db.txn(), d, &k, &v, MDBX_CURRENT), {MDBX_NOTFOUND}, "put(CURRENT) to an empty table"); break;
      case 1:
        if (fl & MDBX_INTEGERDUP) {
          v.iov_len = 5;
          no(mdbx_put(db.txn(), d, &k, &v, MDBX_UPSERT), {MDBX_BAD_VALSIZE}, "put of a bad value to an empty table");
        }
        break;
      case 2:
        if (ik) {
          k.iov_len = 5;
          no(mdbx_put(db.txn(), d, &k, &v, MDBX_UPSERT), {MDBX_BAD_VALSIZE}, "put of a bad key to an empty table");
        }
        break;
      default: no(mdbx_del(db.txn(), d, &k, &v), {MDBX_NOTFOUND}, "del from an empty table");
      }
    }
    const size_t kl = ik ? b : 3, vl = fd ? b : 3;
    MDBX_val k{q, kl}, v{q + 1, vl};
    rc = mdbx_put(db.txn(), d, &k, &v, MDBX_UPSERT);
    TR(c, "put to an empty table with flags %x, %zu / %zu bytes after refused ones of %zu -> %s", fl, kl, vl, a, rcname(rc));
    if (db.full(rc)) return false;
    if (rc == MDBX_BAD_VALSIZE && aborted)
      c.fail_sig("aborted-first-put", "the first put of %zu / %zu bytes into an empty table (flags %x) returned %s, after an aborted put of %zu bytes", kl, vl, fl, rcname(rc), a);
    if (rc) c.fail("the first put of %zu / %zu bytes into an empty table (flags %x) returned %s, after refused calls with %zu bytes", kl, vl, fl, rcname(rc), a);
    m.rw(n).add(Bytes((char *)q, kl), Bytes((char *)(q + 1), vl));
    c.label("fresh table");
    return true;
  }
  bool misuse() {
    MDBX_txn *t = db.txn();
    place(t);
    for (unsigned i = 1 + c.below(4); i--;) {
      switch (c.weighted({10, 6, 5, 6, 4})) {
      case 0: bad_put(t); break;
      case 1: bad_cursor(t, false); break;
      case 2: bad_table(t, false); break;
      case 3: bad_txn(); break;
      default: bad_env();
      }
      MDBX_txn_flags_t f = mdbx_txn_flags(t);
      if (f & (MDBX_TXN_ERROR | MDBX_TXN_FINISHED)) c.fail("the transaction is broken (flags %x) after a refused call", f);
    }
    drop_others();
    if (c.chance(1, 5)) check_model(t, db.cur(), "after refused calls");
    return true;
  }
  void misuse_reader() {
    MDBX_txn *t = nullptr;
    db.must(mdbx_txn_begin(db.env, nullptr, MDBX_TXN_RDONLY, &t), "mdbx_txn_begin(RDONLY)");
    place(t);
    for (unsigned i = 1 + c.below(4); i--;) {
      switch (c.below(4)) {
      case 0: bad_cursor(t, true); break;
      case 1: bad_table(t, true); break;
      case 2: bad_env(); break;
      default: bad_read_txn(t);
      }
    }
    drop_others();
    check_model(t, db.st[0], "in a read transaction after refused calls");
    if (c.flip()) {
      db.must(mdbx_txn_reset(t), "mdbx_txn_reset");
      Table &tb = db.tabs[0];
      Bytes key = tb.dom.gen_key(c);
      MDBX_val k = V(key), v;
      no(mdbx_get(t, tb.dbi, &k, &v), {MDBX_BAD_TXN}, "get in a reset transaction");
      MDBX_cursor *q = nullptr;
      no(mdbx_cursor_open(t, tb.dbi, &q), {MDBX_BAD_TXN}, "cursor_open in a reset transaction");
      no(mdbx_txn_park(t, false), {MDBX_BAD_TXN, MDBX_EINVAL}, "park of a reset transaction");
      no(mdbx_txn_reset(t), {MDBX_SUCCESS, MDBX_EINVAL, MDBX_BAD_TXN}, "reset of a reset transaction");
      db.must(mdbx_txn_renew(t), "mdbx_txn_renew");
      check_model(t, db.st[0], "in a renewed transaction");
    }
    db.must(mdbx_txn_abort(t), "mdbx_txn_abort");
    c.label("misuse of a read transaction");
  }
  void configure(EnvCfg &g) override {
    H::configure(g);
    max_readers = g.flags & MDBX_NOSTICKYTHREADS ? 1 : 0;
    w = {22, 3, 7, 8, 5, 1, 1, 2, 1, 1, 1, 0, 2, 2, 0, 34, 3};
  }
  void boundary(const char *where) override {
    if (c.chance(1, 3)) misuse_reader();
    if (c.chance(1, 3)) check_committed(where);
  }
  void inside(const char *where) override {
    if (c.chance(1, 4)) check_model(db.txn(), db.cur(), where);
  }
  bool extra(unsigned k) override { return k ? fresh() : misuse(); }
  void finish() override { drop_others(); }
};
} // namespace
void vf::run_case(Ctx &c) {
  S s(c);
  s.run();
  if (s.refused >= 8 && s.kinds.size() >= 5) c.nontrivial();
}
