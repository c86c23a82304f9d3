// C15: the data file stays within its configured size, and full is not fatal.
#include "hist.hpp"
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace kit;
const vf::Config vf::config = {
    "C15",
    "a case is one generated configuration with a narrow size range, a history of data operations, fills up to the limit, geometry changes inside and "
    "outside of (nested) write transactions, reopenings, optionally watched by a second process; after each boundary the reported geometry and the file "
    "are compared with the configured ones; non-trivial: the limit was hit, or the file grew or shrank, or the geometry was changed successfully, at least twice in total",
    14000, 300000};
#include <sys/mman.h>
// the library must not give advices (discarding memory!) beyond of its mappings
static struct {
  uintptr_t a, n;
} maps[64];
static char beyond[200];
static void map_add(void *a, size_t n) {
  for (auto &m : maps)
    if (!m.n) {
      m = {(uintptr_t)a, (n + 4095) & ~(size_t)4095};
      return;
    }
}
extern "C" {
void *__real_mmap64(void *, size_t, int, int, int, off64_t);
void *__real_mremap(void *, size_t, size_t, int, void *);
int __real_munmap(void *, size_t);
int __real_madvise(void *, size_t, int);
void *__wrap_mmap64(void *a, size_t n, int p, int f, int fd, off64_t o) {
  void *r = __real_mmap64(a, n, p, f, fd, o);
  if (r != MAP_FAILED && fd >= 0) map_add(r, n);
  return r;
}
void *__wrap_mremap(void *a, size_t o, size_t n, int f, void *b) {
  void *r = __real_mremap(a, o, n, f, b);
  if (r != MAP_FAILED) {
    for (auto &m : maps)
      if (m.n && m.a >= (uintptr_t)a && m.a < (uintptr_t)a + o) m = {0, 0};
    map_add(r, n);
  }
  return r;
}
int __wrap_munmap(void *a, size_t n) {
  const uintptr_t b = (uintptr_t)a, e = b + ((n + 4095) & ~(size_t)4095);
  for (auto &m : maps)
    if (m.n && m.a >= b && m.a < e)
      m = {0, 0};
    else if (m.n && b > m.a && b < m.a + m.n)
      m.n = b - m.a; // the tail
  return __real_munmap(a, n);
}
int __wrap_madvise(void *a, size_t n, int advice) {
  bool ok = false;
  const uintptr_t e = ((uintptr_t)a + n + 4095) & ~(uintptr_t)4095;
  for (uintptr_t x = (uintptr_t)a; x < e; x += 4096) {
    ok = false;
    for (auto &m : maps) ok |= x >= m.a && x < m.a + m.n;
    if (!ok) break;
  }
  if (!ok && (advice == MADV_DONTNEED || advice == MADV_REMOVE)) {
    for (auto &m : maps)
      if ((uintptr_t)a >= m.a && (uintptr_t)a <= m.a + m.n) snprintf(beyond, sizeof beyond, "memory from %zu up to %zu of a mapping of %zu bytes was discarded", (size_t)(uintptr_t)a - m.a, (size_t)e - m.a, (size_t)m.n);
    if (getenv("VF_ABORT")) abort();
    if (!*beyond) snprintf(beyond, sizeof beyond, "%zu bytes of memory outside of the mappings were discarded", n);
    return 0;
  }
  return __real_madvise(a, n, advice);
}
}
namespace {
typedef long long ll;
struct Geo {
  uint64_t lower, upper, grow, shrink, now;
};
struct S : hist::H {
  using H::H;
  unsigned events = 0;
  std::vector<Geo> g{1}; // parallel to db.st
  unsigned osps = 4096;
  bool sized = false; // the size was changed by a geometry call of the open transaction
  bool resized = false; // a geometry call since the last look
  bool spoilt = false;  // uncommitted or refused changes of the size may have left a larger file until reopening
  bool tainted = false; // the size may differ from the committed one: an abort happened
  // ---- the second process
  pid_t child = 0;
  int to = -1, from = -1;
  struct Answer {
    int rc;
    Geo g;
    uint64_t items[4];
  };
  void start_child() {
    int a[2], b[2];
    if (pipe(a) || pipe(b)) c.inconclusive("pipe");
    fflush(nullptr);
    child = fork();
    if (child == 0) {
      vf_child_init();
      close(a[1]), close(b[0]);
      int rc = mdbx_env_resurrect_after_fork(db.env);
      char x;
      while (read(a[0], &x, 1) == 1) {
        Answer r{};
        MDBX_txn *t = nullptr;
        if (!rc && x == 'w') { // a write transaction
          rc = mdbx_txn_begin(db.env, nullptr, MDBX_TXN_READWRITE, &t);
          MDBX_canary k{1, 2, 3, 4};
          if (!rc) rc = mdbx_canary_put(t, &k);
          if (!rc) rc = mdbx_txn_commit(t);
        }
        if (!rc) rc = mdbx_txn_begin(db.env, nullptr, MDBX_TXN_RDONLY, &t);
        if (!rc) {
          MDBX_envinfo i;
          rc = mdbx_env_info_ex(nullptr, t, &i, sizeof i);
          r.g = {i.mi_geo.lower, i.mi_geo.upper, i.mi_geo.grow, i.mi_geo.shrink, i.mi_geo.current};
          for (size_t j = 0; j < db.tabs.size() && j < 4 && !rc; ++j) {
            MDBX_cursor *k = nullptr;
            rc = mdbx_cursor_open(t, db.tabs[j].dbi, &k);
            MDBX_val kk, vv;
            int q = rc ? rc : mdbx_cursor_get(k, &kk, &vv, MDBX_FIRST);
            volatile unsigned sum = 0;
            while (q == 0) {
              r.items[j]++;
              for (size_t z = 0; z < vv.iov_len; ++z) sum += ((char *)vv.iov_base)[z];
              q = mdbx_cursor_get(k, &kk, &vv, MDBX_NEXT);
            }
            if (k) mdbx_cursor_close(k);
            if (q != MDBX_NOTFOUND && !rc) rc = q;
          }
          int e = mdbx_txn_abort(t);
          if (!rc) rc = e;
        }
        r.rc = rc;
        rc = 0;
        if (write(b[1], &r, sizeof r) != sizeof r) break;
      }
      _exit(0);
    }
    close(a[0]), close(b[1]);
    to = a[1], from = b[0];
    c.label("second process");
  }
  void stop_child() {
    if (!child) return;
    close(to), close(from);
    kill(child, SIGKILL);
    waitpid(child, nullptr, 0);
    child = 0;
  }
  void ask_child(const char *where) {
    if (!child) return;
    const bool w = c.chance(1, 4);
    const char x = w ? 'w' : 'r';
    Answer r;
    if (write(to, &x, 1) != 1 || read(from, &r, sizeof r) != sizeof r) {
      int st = 0;
      waitpid(child, &st, 0);
      child = 0;
      c.fail("%s: the second process died (status %x)", where, st);
    }
    if (r.rc == MDBX_UNABLE_EXTEND_MAPSIZE) { // documented: it has to reopen
      c.label("the second process could not extend the mapping");
      return;
    }
    if (w && (r.rc == MDBX_MAP_FULL || r.rc == MDBX_TXN_FULL)) return;
    if (r.rc) c.fail("%s: the second process got %s", where, rcname(r.rc));
    if (w) {
      auto &k = db.st[0].canary;
      k.x = 1, k.y = 2, k.z = 3;
      shape(where, false); // may have resized
    }
    same_geo(r.g, g[0], where, "the second process");
    for (size_t j = 0; j < db.tabs.size() && j < 4; ++j)
      if (r.items[j] != db.st[0].ro(db.tabs[j].name).items)
        c.fail("%s: the second process sees %llu items in %s, expected %llu", where, (ll)r.items[j], db.tabs[j].name.c_str(), (ll)db.st[0].ro(db.tabs[j].name).items);
    c.label("seen by the second process");
  }
  // ---- geometry
  Geo info(MDBX_txn *t) {
    MDBX_envinfo i;
    db.must(mdbx_env_info_ex(db.env, t, &i, sizeof i), "mdbx_env_info_ex");
    return {i.mi_geo.lower, i.mi_geo.upper, i.mi_geo.grow, i.mi_geo.shrink, i.mi_geo.current};
  }
  uint64_t used() {
    MDBX_envinfo i;
    db.must(mdbx_env_info_ex(db.env, nullptr, &i, sizeof i), "mdbx_env_info_ex");
    return (i.mi_last_pgno + 1) * db.cfg.ps;
  }
  uint64_t file_size() {
    struct stat st;
    if (stat(dxb(db.cfg, db.path).c_str(), &st)) c.inconclusive("stat");
    return st.st_size;
  }
  void same_geo(const Geo &a, const Geo &b, const char *where, const char *who) {
    if (a.lower != b.lower || a.upper != b.upper || a.grow != b.grow || a.shrink != b.shrink)
      c.fail("%s: %s reports the geometry lower=%llu upper=%llu grow=%llu shrink=%llu, expected lower=%llu upper=%llu grow=%llu shrink=%llu", where, who, (ll)a.lower, (ll)a.upper,
             (ll)a.grow, (ll)a.shrink, (ll)b.lower, (ll)b.upper, (ll)b.grow, (ll)b.shrink);
  }
  uint64_t up(uint64_t x, uint64_t m) { return (x + m - 1) / m * m; }
  // is x a multiple of the step, rounded up to whole pages of the system?
  bool aligned(uint64_t x, uint64_t step) {
    if (!step) return false;
    uint64_t m = x / step * step;
    return up(m, osps) == x || (m >= step && up(m - step, osps) == x);
  }
  // after a publishing call, or a reopening
  void shape(const char *where, bool free_size) {
    if (*beyond) c.fail("%s: %s", where, beyond);
    Geo n = info(nullptr);
    same_geo(n, g[0], where, "mdbx_env_info");
    const uint64_t u = used(), f = file_size();
    if (n.now < n.lower || n.now > n.upper) c.fail("%s: the current size %llu is out of %llu..%llu", where, (ll)n.now, (ll)n.lower, (ll)n.upper);
    if (n.now < u) c.fail("%s: the current size is %llu, but %llu are used", where, (ll)n.now, (ll)u);
    if (f < n.now && !spoilt) c.fail("%s: the file has only %llu bytes, the current size is %llu", where, (ll)f, (ll)n.now);
    if (f < n.lower && !spoilt) c.fail("%s: the file has %llu bytes, the lower limit is %llu", where, (ll)f, (ll)n.lower);
    if (!tainted && !spoilt && f > n.upper) c.fail("%s: the file has %llu bytes, the upper limit is %llu", where, (ll)f, (ll)n.upper);
    if (!tainted && strstr(where, "reopen") && f != up(n.now, osps)) c.fail("%s: the file has %llu bytes, the current size is %llu", where, (ll)f, (ll)n.now);
    const uint64_t was = g[0].now;
    free_size |= resized, resized = false;
    if (!free_size && n.now > was) {
      if (!n.grow) c.fail("%s: the size grew from %llu to %llu, but growth is disabled", where, (ll)was, (ll)n.now);
      if (n.now != n.upper && !aligned(n.now, n.grow))
        c.fail("%s: the size grew from %llu to %llu, which is neither a multiple of the step %llu nor the upper limit", where, (ll)was, (ll)n.now, (ll)n.grow);
      c.label("grew");
      ++events;
    }
    if (!free_size && n.now < was) {
      if (!n.shrink) c.fail("%s: the size shrank from %llu to %llu, but shrinking is disabled", where, (ll)was, (ll)n.now);
      if (n.now != n.lower && !aligned(n.now, n.grow ? n.grow : n.shrink))
        c.fail("%s: the size shrank from %llu to %llu, which is neither a multiple of the step %llu nor the lower limit", where, (ll)was, (ll)n.now, (ll)(n.grow ? n.grow : n.shrink));
      c.label("shrank");
      ++events;
    }
    g[0].now = n.now;
  }
  struct Ask {
    intptr_t a[5] = {-1, -1, -1, -1, -1};
    intptr_t &operator[](int i) { return a[i]; }
  } asked;
  // x is y, or y rounded up to a system page, a page or the unit of allocation
  bool near(uint64_t x, uint64_t y) { return x == y || x == up(y, osps) || x == up(y, std::max<uint64_t>(osps, db.cfg.ps)) || x == up(y, std::max<uint64_t>(65536, db.cfg.ps)); }
  bool nearstep(uint64_t x, uint64_t y) { // steps are stored in a packed form
    const uint64_t m = std::max<uint64_t>(65536, db.cfg.ps);
    return y ? x && x + y / 16 >= y && x <= up(y, m) + y / 16 + db.cfg.ps : x == 0;
  }
  Geo changed(const Geo &o, const Geo &n, const char *where, bool open) {
    const uint64_t least = std::max<uint64_t>(16384, 16 * db.cfg.ps);
    if (asked[0] > 0 ? !near(n.lower, std::max<uint64_t>(asked[0], least)) && !near(n.lower, asked[0]) : asked[0] < 0 && !open && !near(n.lower, o.lower))
      c.fail("%s: the lower limit %lld was requested, it was %llu, but it is %llu now", where, (ll)asked[0], (ll)o.lower, (ll)n.lower);
    if (asked[2] > 0 ? !near(n.upper, asked[2]) && !(open && (uint64_t)asked[2] <= o.now && n.upper <= up(o.now, 65536)) : asked[2] < 0 && !open && !near(n.upper, o.upper))
      c.fail("%s: the upper limit %lld was requested, it was %llu, but it is %llu now", where, (ll)asked[2], (ll)o.upper, (ll)n.upper);
    for (int k = 3; k < 5; ++k) {
      const uint64_t x = k == 3 ? n.grow : n.shrink, y = k == 3 ? o.grow : o.shrink;
      if (open && asked[k] < 0) continue;
      if (!nearstep(x, asked[k] >= 0 ? asked[k] : y) && !(k == 3 && x && x <= 65536 && (asked[3] >= 0 ? asked[3] : y) == 0))
        c.fail("%s: the %s step %lld was requested, it was %llu, but it is %llu now", where, k == 3 ? "growth" : "shrink", (ll)asked[k], (ll)y, (ll)x);
    }
    return n;
  }
  void ask() {
    const uint64_t u = used(), P = db.cfg.ps;
    uint64_t base = std::max<uint64_t>(64 << 10, 16 * P);
    asked[0] = c.weighted({4, 1, 3, 1}) == 0 ? -1 : c.one<intptr_t>({0, (intptr_t)base, (intptr_t)(base * 2), (intptr_t)(u + c.below(1 << 18)), 12345 + (intptr_t)base});
    asked[1] = c.chance(2, 3) ? -1 : c.one<intptr_t>({0, (intptr_t)u, (intptr_t)(u + (1 << 18)), (intptr_t)base, (intptr_t)(u * 2)});
    asked[2] = c.chance(1, 3) ? -1 : c.one<intptr_t>({0, (intptr_t)u, (intptr_t)(u + P * 7), (intptr_t)(u + (1 << 18)), (intptr_t)(u * 2 + 77), 1 << 20, 2 << 20, 4 << 20, (intptr_t)(u / 2)});
    static const intptr_t step[] = {-1, -1, 0, 4096, 5000, 65536, 100000, 1 << 18, 1 << 20};
    asked[3] = step[c.below(9)], asked[4] = step[c.below(9)];
  }
  bool geo_change() {
    ask();
    bool in = !db.tx.empty();
    Geo o = info(nullptr);
    const uint64_t u0 = in ? 0 : used();
    int rc = mdbx_env_set_geometry(db.env, asked[0], asked[1], asked[2], asked[3], asked[4], c.chance(1, 6) ? (intptr_t)db.cfg.ps : -1);
    TR(c, "set_geometry%s lower=%zd now=%zd upper=%zd growth=%zd shrink=%zd (used %llu) -> %s", in ? " inside" : "", asked[0], asked[1], asked[2], asked[3], asked[4], (ll)u0, rcname(rc));
    c.label(in ? "geometry inside" : "geometry outside");
    resized = true;
    if (in || rc) spoilt = true;
    Geo n = info(nullptr);
    if (rc) {
      same_geo(n, o, "after a refused geometry change", "mdbx_env_info");
      intptr_t pl = asked[0], ph = asked[2]; // or as requested earlier in the transaction
      if (in && !lev.empty()) {
        if (pl < 0) pl = lev.back()[0];
        if (ph < 0) ph = lev.back()[2];
      }
      const uint64_t lo = pl < 0 ? up(o.lower, osps) : std::max<uint64_t>(up(pl, 65536), 65536), hi = ph < 0 ? o.upper : ph;
      bool why = false;
      if (rc == MDBX_EINVAL) why = lo > hi || asked[2] == 0 || fuzzy;
      if (rc == MDBX_MAP_FULL) why = hi < up(o.now, osps) || in; // pages used by the transaction itself
      if (rc == MDBX_UNABLE_EXTEND_MAPSIZE || rc == MDBX_EPERM || rc == MDBX_RESULT_TRUE || rc == MDBX_BUSY) why = in || !readers.empty() || (db.cfg.flags & MDBX_NOSTICKYTHREADS);
      if (!why) c.fail("mdbx_env_set_geometry was refused with %s", rcname(rc));
      c.label("geometry refused");
      return true;
    }
    if (in) {
      sized = true;
      if (db.tx.size() > 1) fuzzy = true; // which changes of nested transactions survive is not tracked
      for (int i = 0; i < 5; ++i)
        if (asked[i] >= 0) lev.back()[i] = asked[i];
      same_geo(n, o, "while a geometry change is not yet committed", "mdbx_env_info");
    } else {
      n = changed(o, n, "after mdbx_env_set_geometry", false);
      n.now = g[0].now, g[0] = n;
      tainted = false;
      shape("after mdbx_env_set_geometry", true);
      ask_child("after mdbx_env_set_geometry");
    }
    ++events;
    return true;
  }
  // ---- up to the limit
  bool fill() {
    Table &t = db.tabs[c.below(db.tabs.size())];
    const uint64_t P = db.cfg.ps;
    unsigned n = c.weighted({3, 1}) ? 400 : 40;
    const unsigned style = c.below(3);
    const Geo before = info(db.txn());
    TR(c, "fill of %s, style %u", t.name.c_str(), style);
    for (unsigned i = 0; i < n; ++i) {
      MDBX_txn_info ti;
      db.must(mdbx_txn_info(db.txn(), &ti, false), "mdbx_txn_info");
      MTable &m = db.cur().rw(t.name);
      Bytes k = t.dom.gen_key(c), v;
      if (t.dom.flags & MDBX_DUPSORT || style == 0)
        v = t.dom.gen_val(c);
      else
        v = Bytes(style == 1 ? P * (1 + c.below(12)) : c.below(P), (char)c.below(256));
      if (v.size() > t.dom.vmax && t.dom.flags & MDBX_DUPSORT) v.resize(t.dom.vmax);
      MDBX_val kk = V(k), vv = V(v);
      int rc = mdbx_put(db.txn(), t.dbi, &kk, &vv, MDBX_UPSERT);
      if (rc == MDBX_UNABLE_EXTEND_MAPSIZE && spoilt) { // the mapping may not be moved
        while (!db.tx.empty()) db.abort();
        sized = false, tainted = true, lev.clear();
        return false;
      }
      if (rc == MDBX_MAP_FULL || (rc == MDBX_TXN_FULL && (db.cfg.small_dp || db.cfg.upper < (8 << 20)))) {
        TR(c, "put %u of %zu bytes -> %s", i, v.size(), rcname(rc));
        const Geo lim = before;
        const uint64_t need = v.size() + P * (64 + 2), cap = lim.grow ? lim.upper : lim.now;
        if (rc == MDBX_MAP_FULL && !sized && ti.txn_space_used + need < cap)
          c.fail("mdbx_put of %zu bytes ran out of space, but only %llu of %llu bytes are used", v.size(), (ll)ti.txn_space_used, (ll)cap);
        c.label(rc == MDBX_MAP_FULL ? "limit hit" : "dirty limit hit");
        ++events;
        return recover(t, k, v, rc);
      }
      if (rc == MDBX_TXN_FULL) c.fail("mdbx_put returned MDBX_TXN_FULL without a limit of dirty pages");
      db.must(rc, "mdbx_put while filling");
      m.add(k, v);
    }
    return true;
  }
  bool recover(Table &t, const Bytes &k, const Bytes &v, int why) {
    MDBX_val kk = V(k), vv = V(v);
    int rc = mdbx_get(db.txn(), t.dbi, &kk, &vv);
    if (rc != MDBX_BAD_TXN && why != MDBX_TXN_FULL) c.fail("a transaction which ran out of space answers %s", rcname(rc));
    while (!db.tx.empty()) db.abort();
    sized = false, tainted = true, lev.clear();
    check_committed("after the abort of a transaction without space");
    switch (c.below(3)) {
    case 0: { // more space
      if (db.cfg.upper > (24 << 20)) break;
      end_readers();
      Geo o = info(nullptr);
      const intptr_t upper = o.upper * 2 + v.size() * 2 + 64 * db.cfg.ps;
      rc = mdbx_env_set_geometry(db.env, -1, -1, upper, 65536, -1, -1);
      TR(c, "set_geometry upper=%zd -> %s", upper, rcname(rc));
      if (rc == MDBX_UNABLE_EXTEND_MAPSIZE && db.cfg.flags & MDBX_NOSTICKYTHREADS) {
        stop_child();
        db.must(db.close(), "mdbx_env_close");
        EnvCfg e = db.cfg;
        e.lower = e.now = e.shrink = -1, e.upper = upper, e.growth = 65536;
        db.must(db.Env::open(c, db.path, e), "reopening with a higher limit");
        db.reopen_tables();
        c.label("reopen to raise the limit");
      } else
        db.must(rc, "raising the upper limit");
      asked = Ask();
      asked[2] = upper, asked[3] = 65536;
      g[0] = changed(o, info(nullptr), "after raising the upper limit", true);
      tainted = false;
      shape("after raising the upper limit", true);
      db.begin();
      kk = V(k), vv = V(v);
      rc = mdbx_put(db.txn(), t.dbi, &kk, &vv, MDBX_UPSERT);
      if (!db.full(rc) || rc != MDBX_TXN_FULL) {
        db.must(rc, "the insertion after raising the limit");
        db.cur().rw(t.name).add(k, v);
        db.commit();
        if (!db.tx.empty()) c.fail("the commit after raising the limit ran out of space");
      } else
        db.abort();
      sized = false;
      shape("after the commit", false);
      c.label("continued with a higher limit");
      break;
    }
    case 1: { // less data
      end_readers();
      unsigned tries = 0;
      for (; tries < 3; ++tries) {
        db.begin();
        rc = mdbx_drop(db.txn(), t.dbi, false);
        TR(c, "clear of the table -> %s", rcname(rc));
        if (rc == MDBX_MAP_FULL || rc == MDBX_TXN_FULL) {
          db.abort();
          c.label("no space to delete");
          return false;
        }
        db.must(rc, "clear of the table");
        MTable &m = db.cur().rw(t.name);
        if (!m.m.empty()) m.seq = 0;
        m.clear();
        size_t before = db.tx.size();
        db.commit();
        (void)before;
        if (db.txn_full) {
          c.label("no space to delete");
          return false;
        }
        rc = mdbx_env_sync_ex(db.env, true, false);
        if (rc != MDBX_RESULT_TRUE) db.must(rc, "mdbx_env_sync_ex");
      }
      c.label("continued with less data");
      tainted = false;
      shape("after deleting data", false);
      break;
    }
    default: break;
    }
    return false;
  }
  // ---- hooks
  void configure(EnvCfg &e) override {
    H::configure(e);
    osps = sysconf(_SC_PAGESIZE);
    max_readers = c.chance(1, 3) ? 2 : 0;
    w = {30, 4, 6, 16, 8, 2, 2, 4, 0, 1, 2, 0, 2, 3, 0, 14, 10};
    if (e.ps > 16384) e.ps = 16384;
    const uint64_t base = std::max<uint64_t>(64 << 10, 16 * e.ps);
    e.lower = c.one<intptr_t>({-1, 0, (intptr_t)base, (intptr_t)base * 2, 300000});
    e.now = c.one<intptr_t>({-1, -1, (intptr_t)base * 2});
    e.upper = c.one<intptr_t>({1 << 20, 1 << 19, 2 << 20, 777777, 4 << 20});
    e.upper = std::max<intptr_t>(e.upper, 80 * e.ps);
    e.growth = c.one<intptr_t>({-1, 4096, 65536, 100000, 0, 1 << 18}), e.shrink = c.one<intptr_t>({-1, 0, 4096, 65536, 1 << 18});
    if (e.growth == 0) e.now = e.upper;
    max_keys = 150, thorough_keys = 400;
    db.map_full_ok = true;
    e.small_dp = true; // a small upper limit bounds the dirty pages too
  }
  void setup() override {
    g[0] = info(nullptr);
    asked[0] = db.cfg.lower, asked[1] = db.cfg.now, asked[2] = db.cfg.upper, asked[3] = db.cfg.growth, asked[4] = db.cfg.shrink;
    changed(g[0], g[0], "after creation", true);
    tainted = false;
    shape("after creation", true);
    if (!(db.cfg.flags & MDBX_EXCLUSIVE) && c.chance(1, 5)) start_child();
  }
  void final_reopen() override { do_reopen(); }
  void do_reopen() override {
    stop_child();
    db.must(db.close(), "mdbx_env_close");
    EnvCfg e = db.cfg;
    Geo o = g[0];
    const bool set = c.chance(1, 3);
    if (set) {
      asked = Ask();
      e.lower = asked[0] = c.one<intptr_t>({0, (intptr_t)std::max<uint64_t>(64 << 10, 16 * e.ps)});
      e.now = -1;
      e.upper = asked[2] = c.one<intptr_t>({1 << 20, 3 << 20, 8 << 20, 1 << 19});
      e.growth = asked[3] = c.one<intptr_t>({65536, 1 << 18}), e.shrink = asked[4] = c.one<intptr_t>({65536, 0});
    }
    int rc = db.Env::open(c, db.path, e, 0, set);
    TR(c, "reopen%s %s -> %s", set ? " with another geometry" : "", e.describe().c_str(), rcname(rc));
    if (set && rc) {
      if ((rc != MDBX_INCOMPATIBLE && rc != MDBX_MAP_FULL && rc != MDBX_EINVAL) || (uint64_t)e.upper > o.now * 2) c.fail("opening with another geometry (upper %zd, was %llu): %s", e.upper, (ll)o.now, rcname(rc));
      e.lower = e.upper = e.growth = e.shrink = -1;
      rc = db.Env::open(c, db.path, e, 0, false);
    }
    db.must(rc, "mdbx_env_open (reopen)");
    db.reopen_tables();
    Geo n = info(nullptr);
    if (!set || e.upper < 0)
      same_geo(n, o, "after reopening", "mdbx_env_info");
    else
      g[0] = changed(o, n, "after reopening with another geometry", true);
    tainted = spoilt = false;
    shape("after reopening", true);
    c.label("reopen");
    if (!(db.cfg.flags & MDBX_EXCLUSIVE) && c.chance(1, 5)) start_child();
  }
  std::vector<Ask> lev{1}; // by level of transactions: what was requested, not yet committed
  bool fuzzy = false;
  bool done = false;       // something was published
  uint64_t txnid = 0;
  void before_op() override { lev.resize(db.tx.size(), lev.empty() ? Ask() : lev.back()); }
  void began() override { sized = done = fuzzy = false, lev.assign(1, Ask()); }
  void before_commit() override { before_op(); }
  void published() override {
    if (db.txn_full) return;
    MDBX_envinfo i;
    db.must(mdbx_env_info_ex(db.env, nullptr, &i, sizeof i), "mdbx_env_info_ex");
    if (i.mi_recent_txnid != txnid) done = true;
    txnid = i.mi_recent_txnid;
    asked = lev.empty() ? Ask() : lev.back();
    Geo n = info(nullptr), was = g[0];
    g[0] = fuzzy ? n : changed(g[0], n, "after a commit", false);
    if (fuzzy) c.label("geometry changed in a nested transaction");
    bool any = false;
    for (int k = 0; k < 5; ++k) any |= asked[k] >= 0;
    if (!any && !fuzzy) same_geo(n, was, "after a commit", "mdbx_env_info");
    if (any) c.label("geometry committed");
    g[0].now = was.now;
    lev.assign(1, Ask()), fuzzy = false;
  }
  void boundary(const char *where) override {
    if (!done) tainted = true;
    else if (!db.txn_full) tainted = false;
    shape(where, sized);
    sized = false;
    lev.clear();
    if (c.chance(1, 3)) check_committed(where);
    ask_child(where);
  }
  void inside(const char *where) override {
    same_geo(info(db.txn()), g[0], where, "mdbx_env_info");
    if (c.chance(1, 4)) check_model(db.txn(), db.cur(), where);
  }
  bool extra(unsigned k) override {
    if (k == 0) return fill();
    if (c.flip()) { // outside of a transaction
      while (!db.tx.empty()) db.abort();
      tainted = true, sized = done = false, lev.clear();
    }
    return geo_change();
  }
  void finish() override {
    stop_child();
    if (db.txn_full && c.flip()) return;
  }
  ~S() { stop_child(); }
};
} // namespace
static bool loops;
static void logger(MDBX_log_level_t, const char *, int, const char *m, va_list) noexcept {
  if (strstr(m, "too more loops")) loops = true;
}
void vf::run_case(Ctx &c) {
  memset(maps, 0, sizeof maps);
  *beyond = 0;
  S s(c);
  loops = false;
  if (!getenv("VF_LOG")) mdbx_setup_debug(MDBX_LOG_ERROR, MDBX_DBG_DONTCHANGE, logger);
  try {
    s.run();
  } catch (const vf::Failure &f) {
    if (loops && strstr(f.msg.c_str(), "commit") && strstr(f.msg.c_str(), "MDBX_PROBLEM")) c.fail_sig("gc-update-loops", "a commit failed since the update of the GC does not converge: %s", f.msg.c_str());
    throw;
  }
  if (*beyond) c.fail("%s", beyond);
  if (s.events > 1) c.nontrivial();
}
