#include "kit.hpp"
#include "parse.hpp"
#include <sys/wait.h>
#include <unistd.h>
using namespace kit;
const vf::Config vf::config = {
    "C20",
    "a case is one generated configuration, main-table flags, a small universe of names (binary, empty-adjacent, long) and a history of opening (all flag combinations), "
    "creating, renaming, clearing, dropping, closing and enumerating tables, uses of live, dead and doubtful handles, plain main-table records, nested transactions, aborts, "
    "pinned readers, reopenings, and catalogue changes by another process; compared with a transactional catalogue; "
    "non-trivial: at least one table was created and one dropped, renamed or re-created, with an abort or reopening",
    90000, 500000, 25, 60, 240, 3, false};
namespace {
// ---- another process: performs catalogue changes on request
struct Req {
  uint32_t kind, n, ps;
  unsigned flags;
  char name[64];
  uint32_t nlen;
};
int server(const Bytes &path, EnvCfg g, int in, int out) {
  vf_child_init();
  Req q;
  while (read(in, &q, sizeof q) == sizeof q) {
    int rc = 0;
    MDBX_env *env = nullptr;
    MDBX_txn *t = nullptr;
    rc = mdbx_env_create(&env);
    if (!rc) rc = mdbx_env_set_maxdbs(env, 20);
    if (!rc) rc = mdbx_env_open(env, path.c_str(), (MDBX_env_flags_t)(g.flags | MDBX_ACCEDE), 0644);
    if (!rc) rc = mdbx_txn_begin(env, nullptr, MDBX_TXN_READWRITE, &t);
    MDBX_dbi d;
    MDBX_val n{q.name, q.nlen};
    if (!rc && q.kind == 0) { // drop
      rc = mdbx_dbi_open2(t, &n, MDBX_DB_ACCEDE, &d);
      if (!rc) rc = mdbx_drop(t, d, true);
    } else if (!rc) { // drop and create again with n records
      rc = mdbx_dbi_open2(t, &n, MDBX_DB_ACCEDE, &d);
      if (!rc)
        rc = mdbx_drop(t, d, true);
      else if (rc == MDBX_NOTFOUND)
        rc = 0;
      if (!rc) rc = mdbx_dbi_open2(t, &n, (MDBX_db_flags_t)(q.flags | MDBX_CREATE), &d);
      Domain dom;
      dom.flags = q.flags, dom.ps = q.ps, dom.salt = 5, dom.klen = 4, dom.vlen = 4;
      for (unsigned i = 0; !rc && i < q.n; ++i) {
        Bytes k = dom.key_of(i), v = (q.flags & MDBX_DUPSORT) ? dom.val_of(i) : Bytes("foreign");
        MDBX_val kk = V(k), vv = V(v);
        rc = mdbx_put(t, d, &kk, &vv, MDBX_UPSERT);
      }
    }
    if (t) {
      if (rc)
        mdbx_txn_abort(t);
      else
        rc = mdbx_txn_commit(t);
    }
    if (env) mdbx_env_close(env);
    if (write(out, &rc, sizeof rc) != sizeof rc) return 1;
  }
  return 0;
}

struct Handle {
  Bytes name; // model name
  enum St { LIVE, MAYBE, DEAD } st = DEAD;
  size_t level = 0;     // depth of the transaction that opened it
  bool created = false; // by that transaction
  bool moved = false;   // renamed or re-created by an open transaction
};
struct S : Db {
  std::vector<Bytes> names; // raw
  unsigned main_flags = 0;
  std::map<MDBX_dbi, Handle> h;
  std::vector<std::map<Bytes, bool>> touched; // per transaction level: tables changed there
  bool created = false, changed = false, undone = false, broken = false;
  size_t name_max = 0;
  int to = -1, from = -1;
  pid_t pid = 0;
  explicit S(Ctx &c) : Db(c) {}
  ~S() {
    for (auto &r : readers) mdbx_txn_abort(r.t);
    if (to >= 0) ::close(to);
    if (from >= 0) ::close(from);
    if (pid > 0) {
      int st;
      waitpid(pid, &st, 0);
    }
  }
  static Bytes TN(const Bytes &raw) { return "t:" + raw; }
  bool name_less(const Bytes &a, const Bytes &b) { return cmp_key(main_flags, a, b) < 0; }
  const Bytes &gen_name() { return names[c.below(names.size())]; }
  bool is_table(const Model &m, const Bytes &raw) { return m.t.count(TN(raw)); }
  bool is_plain(const Model &m, const Bytes &raw) { return m.ro("m").has(raw); }
  Domain dom(unsigned flags) {
    Domain d = gen_domain(c, flags, cfg.ps, 60);
    d.salt = 5, d.klen = 4, d.vlen = 4;
    return d;
  }
  unsigned live() {
    unsigned n = 0;
    for (auto &x : h) n += x.second.st == Handle::LIVE;
    return n;
  }
  unsigned possible() {
    unsigned n = 0;
    for (auto &x : h) n += x.second.st != Handle::DEAD;
    return n;
  }
  MDBX_dbi of(const Bytes &tn) { // live handle of a table, or 0
    for (auto &x : h)
      if (x.second.st == Handle::LIVE && x.second.name == tn) return x.first;
    return 0;
  }
  void touch(const Bytes &tn) {
    if (!touched.empty()) touched.back()[tn] = true;
  }
  bool is_touched(const Bytes &tn) {
    for (auto &x : touched)
      if (x.count(tn)) return true;
    return false;
  }
  int raw_open(MDBX_txn *t, const Bytes &raw, unsigned fl, MDBX_dbi *d) {
    MDBX_val n = V(raw);
    *d = 0;
    if (!raw.empty() && raw.find('\0') == Bytes::npos && c.flip()) return mdbx_dbi_open(t, raw.c_str(), (MDBX_db_flags_t)fl, d);
    return mdbx_dbi_open2(t, &n, (MDBX_db_flags_t)fl, d);
  }
  void opened(MDBX_dbi d, const Bytes &tn, bool create, const char *who, bool current = true) {
    if (d < 2 || d >= cfg.max_db + 2) c.fail("%s: a handle number %u is returned with %u tables allowed", who, d, cfg.max_db);
    for (auto &x : h)
      if (x.second.st == Handle::LIVE) {
        if (x.first == d && x.second.name != tn) c.fail("%s: the handle %u returned for %s is already used for %s", who, d, show(tn).c_str(), show(x.second.name).c_str());
        if (x.first != d && x.second.name == tn) c.fail("%s: a second handle %u of %s is opened, %u is still open", who, d, show(tn).c_str(), x.first);
      }
    Handle &y = h[d];
    if (y.st == Handle::LIVE && y.name == tn && !create) return;
    for (auto &x : h) // a doubtful one of the same name must have been closed
      if (x.first != d && x.second.name == tn) x.second.st = Handle::DEAD;
    const bool keep = y.name == tn && y.st != Handle::DEAD && y.created;
    y = Handle();
    y.name = tn, y.st = current ? Handle::LIVE : Handle::MAYBE, y.level = tx.size(), y.created = create || keep;
  }
  // ---- operations
  bool op_open() {
    Model &m = cur();
    const Bytes raw = c.chance(1, 40) ? Bytes(name_max + 1 + c.below(300), 'L') : gen_name();
    const Bytes tn = TN(raw);
    const bool exists = is_table(m, raw), plain = is_plain(m, raw);
    const bool create = c.chance(2, 3);
    unsigned fl = exists && c.chance(2, 3) ? m.ro(tn).flags : gen_table_flags(c, 0);
    const bool accede = !create && c.flip();
    if (accede) fl = MDBX_DB_ACCEDE;
    if (exists) seen_flags[tn].insert(m.ro(tn).flags);
    if (create && !accede) seen_flags[tn].insert(fl);
    MDBX_dbi d = 0;
    const bool was_live = of(tn) != 0;
    const unsigned nl = live(), np = possible();
    int rc = raw_open(txn(), raw, fl | (create ? MDBX_CREATE : 0), &d);
    TR(c, "open %s flags=%x%s -> %s %u", show(raw).c_str(), fl, create ? "|CREATE" : "", rcname(rc), d);
    if (full(rc)) return false;
    if (main_flags & MDBX_INTEGERKEY && raw.size() != 8) {
      if (rc == MDBX_SUCCESS) c.fail("a table with a name of %zu bytes is opened while the main table has 8-byte keys", raw.size());
      return true;
    }
    if (raw.size() > name_max && !exists) {
      if (rc != MDBX_EINVAL && rc != MDBX_BAD_VALSIZE && !(rc == MDBX_NOTFOUND && !create)) c.fail("opening a table with a name of %zu bytes returned %s", raw.size(), rcname(rc));
      c.label("oversized name");
      return true;
    }
    if (rc == MDBX_DBS_FULL) {
      if (by_readers.empty() && (was_live || np < cfg.max_db)) c.fail("MDBX_DBS_FULL with at most %u of %u handles in use", np, cfg.max_db);
      c.label("dbs-full");
      return true;
    }
    if (!was_live && nl >= cfg.max_db) c.fail("opening a table with all %u handles in use returned %s", nl, rcname(rc));
    if (plain) {
      expect(rc, MDBX_INCOMPATIBLE, "mdbx_dbi_open of a name that is a plain record");
      return true;
    }
    if (!exists) {
      if (!create) {
        if (rc == MDBX_INCOMPATIBLE && !accede) return true; // a handle left by other transactions has other flags
        expect(rc, MDBX_NOTFOUND, "mdbx_dbi_open of an absent table");
        return true;
      }
      must(rc, "mdbx_dbi_open(CREATE)");
      m.t[tn] = std::make_shared<MTable>(fl);
      opened(d, tn, true, "create");
      touch(tn);
      created = true;
      c.label("create");
    } else {
      const unsigned has = m.ro(tn).flags;
      if (accede || fl == has) {
        if (rc == MDBX_INCOMPATIBLE && other_flags(tn, has)) return true;
        must(rc, "mdbx_dbi_open of an existing table");
        opened(d, tn, false, "open");
      } else if (!create || m.ro(tn).items) {
        expect(rc, MDBX_INCOMPATIBLE, "mdbx_dbi_open with other flags");
        return true;
      } else {
        if (rc == MDBX_INCOMPATIBLE && (foreign_changed || other_flags(tn, has) || other_flags(tn, fl) || by_readers.count(tn))) return true; // the handle has yet other flags
        must(rc, "mdbx_dbi_open(CREATE) of an empty table with other flags");
        uint64_t seq = m.ro(tn).seq;
        m.t[tn] = std::make_shared<MTable>(fl);
        m.t[tn]->seq = seq;
        opened(d, tn, true, "re-create");
        h[d].moved = true;
        touch(tn);
        changed = true;
        c.label("re-create");
      }
    }
    unsigned got = 0, state = 0;
    must(mdbx_dbi_flags_ex(txn(), d, &got, &state), "mdbx_dbi_flags_ex");
    if (got != m.ro(tn).flags) c.fail("an opened table has flags %x, expected %x", got, m.ro(tn).flags);
    MDBX_stat s;
    must(mdbx_dbi_stat(txn(), d, &s, sizeof s), "mdbx_dbi_stat");
    if (s.ms_entries != m.ro(tn).items) c.fail("an opened table %s has %llu items, expected %llu", show(raw).c_str(), (unsigned long long)s.ms_entries, (unsigned long long)m.ro(tn).items);
    return true;
  }
  MDBX_dbi gen_handle() {
    if (!h.empty() && c.chance(9, 10)) {
      auto it = h.begin();
      std::advance(it, c.below(h.size()));
      if (it->second.st == Handle::LIVE || c.chance(1, 3)) return it->first;
      for (auto &x : h)
        if (x.second.st == Handle::LIVE) return x.first;
      return it->first;
    }
    return 2 + c.below(cfg.max_db + 2);
  }
  // a handle that must be refused
  void refused(MDBX_dbi d, const char *why, int also = MDBX_BAD_DBI) {
    int rc;
    MDBX_val k{(void *)"abcdabcd", 8}, v{(void *)"abcdabcd", 8};
    MDBX_stat s;
    unsigned f;
    MDBX_cursor *cu = nullptr;
    uint64_t seq;
    switch (c.below(9)) {
    case 0: rc = mdbx_get(txn(), d, &k, &v); break;
    case 1: rc = mdbx_put(txn(), d, &k, &v, MDBX_UPSERT); break;
    case 2: rc = mdbx_del(txn(), d, &k, nullptr); break;
    case 3: rc = mdbx_dbi_stat(txn(), d, &s, sizeof s); break;
    case 4:
      rc = mdbx_cursor_open(txn(), d, &cu);
      if (cu) mdbx_cursor_close(cu);
      break;
    case 5: rc = mdbx_drop(txn(), d, c.flip()); break;
    case 6: rc = mdbx_dbi_sequence(txn(), d, &seq, 1); break;
    case 7: rc = mdbx_dbi_rename(txn(), d, "zz"); break;
    default: rc = mdbx_dbi_flags(txn(), d, &f); break;
    }
    TR(c, "use of handle %u (%s) -> %s", d, why, rcname(rc));
    if (rc != MDBX_BAD_DBI && rc != also) c.fail("using handle %u (%s) returned %s", d, why, rcname(rc));
    c.label("refused handle");
  }
  // false when it has to be refused (and was)
  bool usable(MDBX_dbi d) {
    auto it = h.find(d);
    if (it == h.end() || it->second.st == Handle::DEAD) {
      refused(d, it == h.end() ? "never opened" : "dead");
      return false;
    }
    Handle &x = it->second;
    auto t = cur().t.find(x.name);
    if (x.st == Handle::LIVE && t == cur().t.end()) { // opened by a reader, absent in this snapshot
      if (c.flip()) return false;
      unsigned f;
      MDBX_stat s;
      int rc = mdbx_dbi_stat(txn(), d, &s, sizeof s);
      if (rc == MDBX_SUCCESS) c.fail("a handle %u of table %s is usable though the table is absent", d, show(x.name).c_str());
      (void)f;
      c.label("absent table");
      return false;
    }
    if (x.st == Handle::MAYBE) {
      MDBX_stat s;
      int rc = mdbx_dbi_stat(txn(), d, &s, sizeof s);
      TR(c, "probe of handle %u -> %s", d, rcname(rc));
      if (rc == MDBX_SUCCESS && t == cur().t.end()) c.fail("a doubtful handle %u of table %s is usable though the table is absent", d, show(x.name).c_str());
      if (rc == MDBX_SUCCESS) { // then it must be the table with its actual contents
        unsigned f = 0;
        must(mdbx_dbi_flags(txn(), d, &f), "mdbx_dbi_flags");
        if (f != t->second->flags) c.fail("a doubtful handle %u of table %s has flags %x, the table has %x", d, show(x.name).c_str(), f, t->second->flags);
        check_table(txn(), d, *t->second, "by a doubtful handle");
        c.label("doubtful handle works");
        return true;
      }
      if (rc != MDBX_BAD_DBI && rc != MDBX_INCOMPATIBLE && rc != MDBX_NOTFOUND) c.fail("a doubtful handle %u gave %s", d, rcname(rc));
      return false;
    }
    return true;
  }
  bool foreign_changed = false;
  std::map<Bytes, std::set<unsigned>> seen_flags; // flags of each name's tables since the environment was opened
  std::set<Bytes> by_readers; // names of tables opened by readers of older snapshots
  bool op_use() {
    MDBX_dbi d = gen_handle();
    if (!usable(d)) return true;
    Handle &x = h[d];
    const MTable &mt = cur().ro(x.name);
    Table tb;
    tb.name = x.name, tb.dbi = d, tb.dom = dom(mt.flags);
    MDBX_stat s;
    int rc = mdbx_dbi_stat(txn(), d, &s, sizeof s);
    if (rc == MDBX_INCOMPATIBLE && foreign_changed) return true;
    must(rc, "mdbx_dbi_stat by a live handle");
    TR(c, "use of handle %u of %s", d, show(x.name).c_str());
    switch (c.weighted({6, 8, 4, 2, 3})) {
    case 0: touch(x.name); return Db::op_put(tb);
    case 1: touch(x.name); return op_bulk(tb, 40);
    case 2: touch(x.name); return op_del(tb);
    case 3: touch(x.name); return op_sequence(tb);
    default: check_table(txn(), d, mt, ("by handle of " + x.name).c_str(), c.flip()); return true;
    }
  }
  bool op_drop() {
    MDBX_dbi d = gen_handle();
    if (!usable(d)) return true;
    Handle &x = h[d];
    const bool del = c.chance(2, 3);
    int rc = mdbx_drop(txn(), d, del);
    TR(c, "drop %s by %u, del=%d -> %s", show(x.name).c_str(), d, del, rcname(rc));
    if (full(rc)) return false;
    if (rc == MDBX_INCOMPATIBLE && foreign_changed) return true;
    must(rc, "mdbx_drop");
    touch(x.name);
    if (del) {
      cur().t.erase(x.name);
      x.st = Handle::DEAD;
      changed = true;
      c.label("drop");
      if (c.flip()) refused(d, "just dropped");
    } else {
      MTable &w = cur().rw(x.name);
      if (!w.m.empty()) w.seq = 0;
      w.clear();
      c.label("clear");
    }
    return true;
  }
  bool op_rename() {
    MDBX_dbi d = gen_handle();
    if (!usable(d)) return true;
    Handle &x = h[d];
    Bytes raw = c.chance(1, 30) ? Bytes(name_max + 1 + c.below(400), 'R') : gen_name();
    MDBX_val n = V(raw);
    int rc = raw.find('\0') == Bytes::npos && c.flip() ? mdbx_dbi_rename(txn(), d, raw.c_str()) : mdbx_dbi_rename2(txn(), d, &n);
    TR(c, "rename %s by %u to %s -> %s", show(x.name).c_str(), d, show(raw).c_str(), rcname(rc));
    if (full(rc)) return false;
    if (rc == MDBX_INCOMPATIBLE && foreign_changed) return true;
    if (main_flags & MDBX_INTEGERKEY && raw.size() != 8) {
      if (rc == MDBX_SUCCESS) c.fail("a table is renamed to a name of %zu bytes while the main table has 8-byte keys", raw.size());
      return true;
    }
    const Bytes tn = TN(raw);
    if (raw.size() > name_max) {
      if (rc == MDBX_SUCCESS) c.fail("a table is renamed to a name of %zu bytes", raw.size());
      c.label("oversized rename");
      return true;
    }
    if (tn == x.name) {
      must(rc, "mdbx_dbi_rename to the same name");
      return true;
    }
    if (is_table(cur(), raw) || is_plain(cur(), raw)) {
      expect(rc, MDBX_KEYEXIST, "mdbx_dbi_rename to an existing name");
      return true;
    }
    if (rc == MDBX_DANGLING_DBI) { // another handle of the new name (of an absent table)
      bool other = false;
      for (auto &y : h) other |= y.first != d && y.second.name == tn && y.second.st != Handle::DEAD;
      if (other || by_readers.count(tn)) return true;
    }
    must(rc, "mdbx_dbi_rename");
    changed = true;
    c.label("rename");
    touch(x.name), touch(tn);
    cur().t[tn] = cur().t.at(x.name);
    cur().t.erase(x.name);
    for (auto &y : h) // an already open handle of the new name (of an absent table)
      if (y.first != d && y.second.name == tn) {
        if (y.second.st == Handle::LIVE) y.second.st = Handle::MAYBE;
        if (!h[d].moved) c.label("renamed over a handle");
      }
    x.name = tn, x.moved = true, x.level = std::max(x.level, tx.size());
    check_table(txn(), d, cur().ro(tn), "after renaming");
    return true;
  }
  void op_close() {
    MDBX_dbi d = gen_handle();
    auto it = h.find(d);
    int rc = mdbx_dbi_close(env, d);
    TR(c, "close %u -> %s", d, rcname(rc));
    if (it == h.end() || it->second.st == Handle::DEAD) {
      expect(rc, MDBX_BAD_DBI, "mdbx_dbi_close of a dead handle");
      return;
    }
    Handle &x = it->second;
    if (x.st == Handle::MAYBE) {
      if (rc != MDBX_SUCCESS && rc != MDBX_BAD_DBI && rc != MDBX_DANGLING_DBI) c.fail("mdbx_dbi_close of a doubtful handle returned %s", rcname(rc));
      if (rc != MDBX_DANGLING_DBI) x.st = Handle::DEAD;
      return;
    }
    if (rc == MDBX_DANGLING_DBI && (is_touched(x.name) || x.created || x.moved)) {
      c.label("dangling");
      return;
    }
    must(rc, "mdbx_dbi_close");
    if (!tx.empty() && x.created && x.level && !by_readers.count(x.name)) c.fail("mdbx_dbi_close of a handle created by the open transaction succeeded");
    x.st = Handle::DEAD;
    c.label("close");
  }
  struct Seen {
    Bytes name;
    unsigned flags;
    uint64_t items;
    MDBX_dbi dbi;
  };
  struct EnumCtx {
    std::vector<Seen> seen;
    size_t stop = SIZE_MAX;
  };
  static int enum_cb(void *ctx, const MDBX_txn *, const MDBX_val *name, MDBX_db_flags_t flags, const MDBX_stat *st, MDBX_dbi dbi) noexcept {
    EnumCtx *e = (EnumCtx *)ctx;
    e->seen.push_back({B(*name), (unsigned)flags, st->ms_entries, dbi});
    return e->seen.size() >= e->stop ? 4242 : 0;
  }
  void op_enum(MDBX_txn *t, const Model &m, const char *where, bool current) {
    EnumCtx e;
    std::vector<Bytes> want;
    for (auto &x : m.t)
      if (x.first != "m") want.push_back(x.first.substr(2));
    std::sort(want.begin(), want.end(), [&](const Bytes &a, const Bytes &b) { return name_less(a, b); });
    if (!want.empty() && c.chance(1, 4)) e.stop = 1 + c.below(want.size());
    int rc = mdbx_enumerate_tables(t, enum_cb, &e);
    TR(c, "%s: enumerate -> %s, %zu tables", where, rcname(rc), e.seen.size());
    if (e.stop != SIZE_MAX) {
      if (rc != 4242 || e.seen.size() != e.stop) c.fail("%s: a stopped enumeration returned %s after %zu tables", where, rcname(rc), e.seen.size());
      want.resize(e.stop);
    } else
      must(rc, "mdbx_enumerate_tables");
    if (e.seen.size() != want.size()) c.fail("%s: %zu tables are listed, expected %zu", where, e.seen.size(), want.size());
    for (size_t i = 0; i < want.size(); ++i) {
      const MTable &x = m.ro(TN(want[i]));
      if (e.seen[i].name != want[i]) c.fail("%s: table %zu is listed as %s, expected %s", where, i, show(e.seen[i].name).c_str(), show(want[i]).c_str());
      if (e.seen[i].flags != x.flags) c.fail("%s: table %s is listed with flags %x, expected %x", where, show(want[i]).c_str(), e.seen[i].flags, x.flags);
      if (e.seen[i].items != x.items) c.fail("%s: table %s is listed with %llu items, expected %llu", where, show(want[i]).c_str(), (unsigned long long)e.seen[i].items, (unsigned long long)x.items);
      if (current && e.seen[i].dbi) {
        MDBX_dbi d = of(TN(want[i]));
        auto it = h.find(e.seen[i].dbi);
        if (d ? e.seen[i].dbi != d : it == h.end() || it->second.st == Handle::DEAD) c.fail("%s: table %s is listed with handle %u, expected %u", where, show(want[i]).c_str(), e.seen[i].dbi, d);
      }
    }
    c.label("enumerate");
  }
  // plain records in the main table
  bool op_main() {
    MTable &w = cur().rw("m");
    Bytes raw = gen_name(), v = "plain" + std::to_string(c.below(1000));
    if (main_flags & MDBX_INTEGERKEY && raw.size() != 8) return true;
    if (raw.empty() && c.flip()) return true;
    MDBX_val k = V(raw), vv = V(v);
    const bool table = is_table(cur(), raw);
    if (c.flip()) {
      int rc = mdbx_put(txn(), 1, &k, &vv, MDBX_UPSERT);
      TR(c, "put main %s -> %s", show(raw).c_str(), rcname(rc));
      if (full(rc)) return false;
      if (table)
        expect(rc, MDBX_INCOMPATIBLE, "mdbx_put over a table's record");
      else {
        must(rc, "mdbx_put into the main table");
        w.set(raw, v);
      }
    } else {
      int rc = mdbx_del(txn(), 1, &k, nullptr);
      TR(c, "del main %s -> %s", show(raw).c_str(), rcname(rc));
      if (full(rc)) return false;
      if (table)
        expect(rc, MDBX_INCOMPATIBLE, "mdbx_del of a table's record");
      else if (w.has(raw)) {
        must(rc, "mdbx_del from the main table");
        w.del(raw);
      } else
        expect(rc, MDBX_NOTFOUND, "mdbx_del of an absent record");
    }
    c.label(table ? "main-table-record" : "main-record");
    return true;
  }
  // drop of the main table: refused while there are named ones
  bool op_drop_main() {
    bool any = cur().t.size() > 1;
    int rc = mdbx_drop(txn(), 1, c.flip());
    TR(c, "drop main -> %s", rcname(rc));
    if (full(rc)) return false;
    if (any) {
      if (rc == MDBX_SUCCESS) c.fail("the main table is dropped though there are %zu named tables", cur().t.size() - 1);
      return false; // the transaction may be broken by that
    }
    must(rc, "mdbx_drop of the main table");
    cur().rw("m").clear();
    c.label("drop-main");
    return true;
  }
  void check_main(MDBX_txn *t, const Model &m, const char *where) {
    std::vector<Bytes> want;
    for (auto &x : m.t)
      if (x.first != "m") want.push_back(x.first.substr(2));
    for (auto &x : m.ro("m").m) want.push_back(x.first);
    std::sort(want.begin(), want.end(), [&](const Bytes &a, const Bytes &b) { return name_less(a, b); });
    MDBX_cursor *cu;
    must(mdbx_cursor_open(t, 1, &cu), "mdbx_cursor_open(main)");
    MDBX_val k, v;
    int rc = mdbx_cursor_get(cu, &k, &v, MDBX_FIRST);
    for (auto &n : want) {
      if (rc || !eqv(k, n)) c.fail("%s: the main table gives %s %s, expected %s", where, rcname(rc), rc ? "" : show(B(k)).c_str(), show(n).c_str());
      if (m.ro("m").has(n) ? !eqv(v, *m.ro("m").get(n)) : v.iov_len != 48) c.fail("%s: wrong record %s in the main table", where, show(n).c_str());
      rc = mdbx_cursor_get(cu, &k, &v, MDBX_NEXT);
    }
    if (rc != MDBX_NOTFOUND) c.fail("%s: extra record in the main table: %s", where, rcname(rc));
    mdbx_cursor_close(cu);
  }
  // the whole catalogue by fresh lookups
  void check_model(MDBX_txn *t, const Model &m, const char *where, bool current) {
    check_main(t, m, where);
    op_enum(t, m, where, current);
    for (auto &raw : names) {
      if (main_flags & MDBX_INTEGERKEY && raw.size() != 8) continue;
      if (current ? c.flip() : c.chance(3, 4)) continue;
      MDBX_dbi d = 0;
      const Bytes tn = TN(raw);
      const bool was = of(tn);
      int rc = raw_open(t, raw, MDBX_DB_ACCEDE, &d);
      TR(c, "%s: open %s -> %s %u", where, show(raw).c_str(), rcname(rc), d);
      auto it = m.t.find(tn);
      if (it != m.t.end()) seen_flags[tn].insert(it->second->flags);
      if (rc == MDBX_DBS_FULL && !was && (possible() >= cfg.max_db || !by_readers.empty())) continue;
      if (is_plain(m, raw)) {
        if (rc == MDBX_NOTFOUND || rc == MDBX_SUCCESS) c.fail("%s: opening a plain record %s returned %s", where, show(raw).c_str(), rcname(rc));
        continue;
      }
      if (it == m.t.end()) {
        if (rc != MDBX_NOTFOUND) c.fail("%s: opening absent table %s returned %s", where, show(raw).c_str(), rcname(rc));
        continue;
      }
      if (rc == MDBX_INCOMPATIBLE && other_flags(tn, it->second->flags)) continue;
      if (rc) c.fail("%s: opening table %s returned %s", where, show(raw).c_str(), rcname(rc));
      opened(d, tn, false, where, current);
      if (!current) by_readers.insert(tn);
      if (!current && h[d].st == Handle::MAYBE) h[d].level = 0;
      check_table(t, d, *it->second, (Bytes(where) + ", table " + show(raw)).c_str(), c.flip());
      uint64_t s = 0;
      must(mdbx_dbi_sequence(t, d, &s, 0), "mdbx_dbi_sequence(0)");
      if (s != it->second->seq) c.fail("%s: sequence of %s is %llu, expected %llu", where, show(raw).c_str(), (unsigned long long)s, (unsigned long long)it->second->seq);
    }
  }
  bool other_flags(const Bytes &tn, unsigned flags) { // some visible state has the table with other flags
    if (foreign_changed) return true;
    for (unsigned f : seen_flags[tn])
      if (f != flags) return true;
    for (auto &m : st) {
      auto it = m.t.find(tn);
      if (it != m.t.end() && it->second->flags != flags) return true;
    }
    for (auto &r : readers) {
      auto it = r.m.t.find(tn);
      if (it != r.m.t.end() && it->second->flags != flags) return true;
    }
    return false;
  }
  // ---- boundaries
  void push(bool nested) {
    size_t was = tx.size();
    if (nested)
      begin_nested();
    else
      begin();
    if (tx.size() > was) touched.emplace_back();
  }
  void after_abort(size_t level) { // of the transaction at that depth (1..)
    for (auto &x : h) {
      Handle &y = x.second;
      if (y.level < level) {
        // dropped or otherwise changed by the aborted one: dead ones stay dead; others keep working,
        // but a nested transaction may have left the parent unable to use it
        continue;
      }
      if (y.st == Handle::DEAD) continue;
      if (y.moved)
        y.st = Handle::MAYBE;
      else if (y.created && level == 1)
        y.st = Handle::DEAD;
      else if (y.created || level > 1 || touched.back().count(y.name))
        y.st = Handle::MAYBE;
      y.level = level - 1, y.created = false, y.moved = false;
      if (y.st == Handle::MAYBE && y.name.empty()) y.st = Handle::DEAD;
    }
  }
  void do_abort() {
    size_t level = tx.size();
    abort();
    after_abort(level);
    touched.pop_back();
    undone = true;
  }
  void do_commit() {
    size_t level = tx.size();
    commit();
    if (tx.size() != level - 1) { // failed: everything was aborted
      while (!touched.empty()) {
        after_abort(touched.size());
        touched.pop_back();
      }
      broken = true;
      return;
    }
    if (txn_full) {
      after_abort(level);
      touched.pop_back();
      return;
    }
    auto t = touched.back();
    touched.pop_back();
    if (!touched.empty()) touched.back().insert(t.begin(), t.end());
    for (auto &x : h) {
      Handle &y = x.second;
      if (y.level >= level) {
        y.level = level - 1;
        if (level == 1) y.created = y.moved = false;
      }
    }
  }
  void do_reopen() {
    for (auto &r : readers) mdbx_txn_abort(r.t);
    readers.clear();
    reopen();
    h.clear();
    foreign_changed = false;
    by_readers.clear();
    seen_flags.clear();
  }
  struct Rd {
    MDBX_txn *t;
    Model m;
  };
  std::vector<Rd> readers;
  void op_reader() {
    if (!(cfg.flags & MDBX_NOSTICKYTHREADS)) return;
    if (readers.size() < 2 && (readers.empty() || c.flip())) {
      Rd r;
      must(mdbx_txn_begin(env, nullptr, MDBX_TXN_RDONLY, &r.t), "mdbx_txn_begin(RDONLY)");
      r.m = st[0];
      TR(c, "reader of %llu", (unsigned long long)mdbx_txn_id(r.t));
      readers.push_back(r);
      return;
    }
    size_t i = c.below(readers.size());
    check_model(readers[i].t, readers[i].m, "in a reader", false);
    MDBX_dbi d;
    const Bytes raw = gen_name();
    if (!(main_flags & MDBX_INTEGERKEY && raw.size() != 8)) expect(raw_open(readers[i].t, raw, MDBX_CREATE, &d), MDBX_EACCESS, "mdbx_dbi_open(CREATE) in a reader");
    c.label("reader");
    if (c.flip()) {
      must(mdbx_txn_abort(readers[i].t), "abort of a reader");
      readers.erase(readers.begin() + i);
    }
  }
  void check_committed_cat(const char *where) {
    MDBX_txn *t;
    must(mdbx_txn_begin(env, nullptr, MDBX_TXN_RDONLY, &t), "mdbx_txn_begin(RDONLY)");
    check_model(t, st[0], where, false);
    must(mdbx_txn_abort(t), "abort of a reader");
    if (c.chance(1, 6)) {
      parse::File f = parse::read(parse::load(dxb(cfg, path)));
      if (!f.problems.empty()) c.fail("%s: %s", where, f.first().c_str());
      size_t n = 0;
      for (auto &x : st[0].t)
        if (x.first != "m") {
          ++n;
          auto it = f.tables.find(x.first.substr(2));
          if (it == f.tables.end()) c.fail("%s: no table %s in the file", where, show(x.first).c_str());
          Bytes d = parse::compare_table(it->second, *x.second);
          if (!d.empty()) c.fail("%s: table %s in the file: %s", where, show(x.first).c_str(), d.c_str());
        }
      if (n != f.tables.size()) c.fail("%s: %zu tables in the file, expected %zu", where, f.tables.size(), n);
    }
  }
  // ---- another process
  void start_server(const EnvCfg &g) {
    int a[2], b[2];
    if (pipe(a) || pipe(b)) c.inconclusive("pipe");
    pid = fork();
    if (pid == 0) {
      ::close(a[1]), ::close(b[0]);
      _exit(server(c.dir + "/db", g, a[0], b[1]));
    }
    ::close(a[0]), ::close(b[1]);
    to = a[1], from = b[0];
  }
  void op_foreign() {
    if (to < 0 || !readers.empty()) return;
    const Bytes raw = gen_name();
    if (raw.empty() || raw.size() > 60 || (main_flags & MDBX_INTEGERKEY && raw.size() != 8) || is_plain(st[0], raw)) return;
    Req q{};
    q.kind = is_table(st[0], raw) ? c.below(2) : 1, q.n = c.below(40), q.ps = cfg.ps;
    q.flags = is_table(st[0], raw) && c.flip() ? st[0].ro(TN(raw)).flags : gen_table_flags(c, 0);
    memcpy(q.name, raw.data(), q.nlen = raw.size());
    int rc = -1;
    if (write(to, &q, sizeof q) != sizeof q || read(from, &rc, sizeof rc) != sizeof rc) c.fail("the other process died");
    TR(c, "other process: %s %s flags=%x n=%u -> %s", q.kind ? "re-create" : "drop", show(raw).c_str(), q.flags, q.n, rcname(rc));
    must(rc, "the other process");
    const Bytes tn = TN(raw);
    st[0].t.erase(tn);
    if (q.kind) {
      auto t = std::make_shared<MTable>(q.flags);
      Domain dm;
      dm.flags = q.flags, dm.ps = q.ps, dm.salt = 5, dm.klen = 4, dm.vlen = 4;
      for (unsigned i = 0; i < q.n; ++i) t->add(dm.key_of(i), (q.flags & MDBX_DUPSORT) ? dm.val_of(i) : Bytes("foreign"));
      st[0].t[tn] = t;
    }
    for (auto &x : h)
      if (x.second.name == tn && x.second.st == Handle::LIVE) x.second.st = Handle::MAYBE;
    foreign_changed = true;
    c.label("foreign");
  }
  void run() {
    EnvCfg g = gen_cfg(c);
    if (c.chance(2, 3)) g.flags &= ~MDBX_WRITEMAP;
    if (c.flip()) g.flags |= MDBX_NOSTICKYTHREADS;
    g.max_db = c.one<unsigned>({2, 4, 6, 12, 20});
    const bool two = c.chance(1, 8);
    if (two) {
      g.flags &= ~MDBX_EXCLUSIVE;
      g.max_db = 20;
      start_server(g);
    }
    open_env(g);
    main_flags = c.one<unsigned>({0, 0, 0, MDBX_REVERSEKEY, MDBX_INTEGERKEY});
    if (main_flags) {
      MDBX_txn *t;
      MDBX_dbi d;
      must(mdbx_txn_begin(env, nullptr, MDBX_TXN_READWRITE, &t), "begin");
      must(mdbx_dbi_open(t, nullptr, (MDBX_db_flags_t)(main_flags | MDBX_CREATE), &d), "mdbx_dbi_open(main)");
      must(mdbx_txn_commit(t), "commit of the main table's flags");
    }
    const size_t kmax = (size_t)mdbx_env_get_maxkeysize_ex(env, (MDBX_db_flags_t)main_flags);
    st[0].t["m"] = std::make_shared<MTable>(main_flags);
    // names longer than what fits into a leaf page together with a table's description are refused
    const size_t nodemax = ((cfg.ps - 20) / 2 & ~(size_t)1) - 2 - 8 - 48;
    name_max = std::min(kmax, nodemax);
    if (main_flags & MDBX_INTEGERKEY) {
      for (unsigned i = 0; i < 8; ++i) {
        uint64_t v = i * 0x100000001ull;
        names.push_back(Bytes((char *)&v, 8));
      }
    } else {
      names = {"a", "ab", "b", "t1", "t2", "x", Bytes("a\0b", 3), Bytes("\xff\xfe", 2), Bytes(name_max > 40 ? 40 : name_max, 'n')};
      names.push_back(Bytes(c.chance(1, 3) ? name_max : name_max > 3 ? name_max - c.below(3) : 1, 'm'));
    }
    c.plan_ops(10 + c.skewed(c.thorough ? 250 : 110));
    bool ok = true;
    while (c.next_op()) {
      if (tx.empty()) {
        switch (c.weighted({20, 3, 2, 2, two ? 12u : 0u})) {
        case 1: do_reopen(); check_committed_cat("after reopening"); break;
        case 2: op_close(); break;
        case 3: op_reader(); break;
        case 4: op_foreign(); break;
        default: break;
        }
        push(false);
      }
      ok = true;
      switch (c.weighted({20, 18, 7, 7, 3, 4, 3, 1, cfg.flags & MDBX_WRITEMAP ? 0u : 8u, 12, 8, 5, 3})) {
      case 0: ok = op_open(); break;
      case 1: ok = op_use(); break;
      case 2: ok = op_drop(); break;
      case 3: ok = op_rename(); break;
      case 4: op_close(); break;
      case 5: op_enum(txn(), cur(), "in the transaction", true); break;
      case 6: ok = op_main(); break;
      case 7: ok = op_drop_main(); break;
      case 8:
        if (tx.size() < 5) push(true);
        break;
      case 9:
        do_commit();
        if (tx.empty() && !broken)
          check_committed_cat("after commit");
        else if (!tx.empty() && c.chance(1, 3))
          check_model(txn(), cur(), "after a nested commit", true);
        break;
      case 10:
        do_abort();
        if (tx.empty())
          check_committed_cat("after abort");
        else
          check_model(txn(), cur(), "after a nested abort", true);
        break;
      case 11: op_reader(); break;
      default: check_model(txn(), cur(), "in the transaction", true); break;
      }
      if (broken) break;
      if (!ok) {
        while (!tx.empty()) do_abort();
        check_committed_cat("after a broken transaction");
      }
    }
    while (!tx.empty()) {
      if (broken || c.flip())
        do_abort();
      else
        do_commit();
    }
    if (broken) {
      c.label("broken");
      for (auto &r : readers) mdbx_txn_abort(r.t);
      readers.clear();
      h.clear();
    }
    for (size_t i = 0; i < readers.size(); ++i) {
      check_model(readers[i].t, readers[i].m, "in a reader at the end", false);
      mdbx_txn_abort(readers[i].t);
    }
    readers.clear();
    if (!broken) check_committed_cat("at the end");
    cfg.max_db = 30;
    do_reopen();
    check_committed_cat("after the final reopen");
    env_chk("at the end");
    must(close(), "close");
    if (created && changed && (undone || c.op_index() > 30)) c.nontrivial();
  }
};
} // namespace
void vf::run_case(Ctx &c) {
  S s(c);
  s.run();
}
