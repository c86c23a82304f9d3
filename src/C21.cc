#include "hist.hpp"
#include <algorithm>
#include <sys/wait.h>
#include <unistd.h>
using namespace kit;
const vf::Config vf::config = {
    "C21",
    "a case is one generated configuration and a history in which half of the operations read or increment the sequences of fixed, dynamic, main tables "
    "(also by overflowing amounts, in read-only and nested transactions) or write the markers, among data operations, clears, drops, nested transactions, "
    "checkpoints, rollbacks, aborts and reopenings; or several processes incrementing one sequence; each returned number and marker is compared with the model; "
    "non-trivial: an increment or marker was committed and another one was undone, or at least two processes got numbers",
    70000, 1000000, 25, 60, 240, 3, false};
namespace {
struct S : hist::H {
  using H::H;
  bool seq_committed = false, seq_undone = false;
  void configure(EnvCfg &g) override {
    H::configure(g);
    if (g.flags & MDBX_NOSTICKYTHREADS) max_readers = 2;
    //      DATA DYN NEST COM AB FC FA CP RB BR EM NRO CHK RD GEO | seq canary ro
    w = {12, 5, 10, 12, 9, 2, 2, 5, 3, 1, 2, 2, 3, 4, 0, 30, 12, 4};
    max_ops = 120, max_keys = 120, max_tables = 3;
  }
  uint64_t amount(uint64_t cur) {
    switch (c.weighted({10, 4, 3, 2, 2, 2})) {
    case 0: return 1;
    case 1: return c.below(100);
    case 2: return c.bits();
    case 3: return ~cur;                    // to the very limit
    case 4: return ~cur + 1 + c.below(3);   // just over it
    default: return 1ull << c.below(64);
    }
  }
  bool bump(const Bytes &n, MDBX_dbi d, uint64_t cur, const std::function<void(uint64_t)> &set) {
    const uint64_t inc = amount(cur);
    uint64_t got = 0x5a5a;
    const bool noresult = c.chance(1, 10);
    int rc = mdbx_dbi_sequence(db.txn(), d, noresult ? nullptr : &got, inc);
    TR(c, "sequence '%s' += %llu -> %s %llu, the model has %llu", n.c_str(), (unsigned long long)inc, rcname(rc), (unsigned long long)got, (unsigned long long)cur);
    if (db.full(rc)) return false;
    if (inc && cur + inc < cur) {
      db.expect(rc, MDBX_RESULT_TRUE, "mdbx_dbi_sequence overflowing");
      c.label("overflow");
    } else {
      db.must(rc, "mdbx_dbi_sequence");
      if (inc) set(cur + inc);
    }
    if (!noresult && got != cur) c.fail("mdbx_dbi_sequence gave %llu, expected %llu", (unsigned long long)got, (unsigned long long)cur);
    uint64_t again = 0x5a5a;
    db.must(mdbx_dbi_sequence(db.txn(), d, &again, 0), "mdbx_dbi_sequence(0)");
    const uint64_t want = inc && cur + inc >= cur ? cur + inc : cur;
    if (again != want) c.fail("mdbx_dbi_sequence(0) gave %llu after the increment, expected %llu", (unsigned long long)again, (unsigned long long)want);
    return true;
  }
  void check_marks(MDBX_txn *t, const Model &m, const char *where) {
    MDBX_canary k;
    memset(&k, 0x5a, sizeof k);
    db.must(mdbx_canary_get(t, &k), "mdbx_canary_get");
    if (k.x != m.canary.x || k.y != m.canary.y || k.z != m.canary.z || k.v != m.canary.v)
      c.fail("%s: markers are %llx %llx %llx of txn %llu, expected %llx %llx %llx of txn %llu", where, (unsigned long long)k.x, (unsigned long long)k.y, (unsigned long long)k.z, (unsigned long long)k.v,
             (unsigned long long)m.canary.x, (unsigned long long)m.canary.y, (unsigned long long)m.canary.z, (unsigned long long)m.canary.v);
    if (!mainonly) {
      uint64_t s = 0x5a5a;
      db.must(mdbx_dbi_sequence(t, 1, &s, 0), "mdbx_dbi_sequence(main)");
      if (s != m.main_seq) c.fail("%s: sequence of the main table is %llu, expected %llu", where, (unsigned long long)s, (unsigned long long)m.main_seq);
    }
  }
  bool extra(unsigned i) override {
    switch (i) {
    case 0: {
      seq_op = true;
      if (!mainonly && c.chance(1, 5)) return bump("(main)", 1, db.cur().main_seq, [&](uint64_t v) { db.cur().main_seq = v; });
      if (!mainonly && c.chance(1, 3)) {
        Bytes n = "x" + std::to_string(c.below(4));
        auto it = db.cur().t.find(n);
        if (it == db.cur().t.end()) return dyn_op();
        MDBX_dbi d = 0;
        db.must(mdbx_dbi_open(db.txn(), n.c_str(), MDBX_DB_ACCEDE, &d), "mdbx_dbi_open");
        return bump(n, d, it->second->seq, [&](uint64_t v) { db.cur().rw(n).seq = v; });
      }
      Table &t = db.tabs[c.below(db.tabs.size())];
      return bump(t.name, t.dbi, db.cur().ro(t.name).seq, [&](uint64_t v) { db.cur().rw(t.name).seq = v; });
    }
    case 1: {
      seq_op = true;
      MDBX_canary &m = db.cur().canary, k{c.bits(), c.bits(), c.bits(), c.bits()};
      const unsigned what = c.below(4);
      if (what == 1) k.x = m.x, k.y = m.y;
      if (what == 2) k = m;
      int rc = mdbx_canary_put(db.txn(), what == 3 ? nullptr : &k);
      TR(c, "canary_put kind %u -> %s", what, rcname(rc));
      db.must(rc, "mdbx_canary_put");
      if (what == 3)
        m.v = mdbx_txn_id(db.txn());
      else if (m.x != k.x || m.y != k.y || m.z != k.z)
        m.x = k.x, m.y = k.y, m.z = k.z, m.v = mdbx_txn_id(db.txn());
      check_marks(db.txn(), db.cur(), "after writing the markers");
      return true;
    }
    default: { // refused calls of readers
      if (!(db.cfg.flags & MDBX_NOSTICKYTHREADS)) return true;
      MDBX_txn *t;
      db.must(mdbx_txn_begin(db.env, nullptr, MDBX_TXN_RDONLY, &t), "mdbx_txn_begin(RDONLY)");
      uint64_t s = 0;
      Table &tb = db.tabs[0];
      db.expect(mdbx_dbi_sequence(t, tb.dbi, &s, 1 + c.below(10)), MDBX_EACCESS, "mdbx_dbi_sequence in a reader");
      if (s != db.st[0].ro(tb.name).seq) c.fail("a reader sees sequence %llu, expected %llu", (unsigned long long)s, (unsigned long long)db.st[0].ro(tb.name).seq);
      MDBX_canary k{1, 2, 3, 4};
      int rc = mdbx_canary_put(t, &k);
      if (rc != MDBX_EACCESS) c.fail("mdbx_canary_put in a reader returned %s", rcname(rc));
      check_marks(t, db.st[0], "in a reader");
      db.must(mdbx_txn_abort(t), "abort of a reader");
      return true;
    }
    }
  }
  bool seq_op = false;
  void boundary(const char *where) override {
    if (seq_op && strstr(where, "commit")) seq_committed = true;
    if (seq_op && strstr(where, "abort")) seq_undone = true;
    seq_op = false;
    MDBX_txn *t;
    db.must(mdbx_txn_begin(db.env, nullptr, MDBX_TXN_RDONLY, &t), "mdbx_txn_begin(RDONLY)");
    check_marks(t, db.st[0], where);
    if (c.chance(1, 4))
      check_model(t, db.st[0], where);
    else
      for (auto &tb : db.tabs) {
        uint64_t s = 0;
        db.must(mdbx_dbi_sequence(t, tb.dbi, &s, 0), "mdbx_dbi_sequence(0)");
        if (s != db.st[0].ro(tb.name).seq) c.fail("%s: sequence of %s is %llu, expected %llu", where, tb.name.c_str(), (unsigned long long)s, (unsigned long long)db.st[0].ro(tb.name).seq);
      }
    db.must(mdbx_txn_abort(t), "abort of a reader");
  }
  void inside(const char *where) override {
    check_marks(db.txn(), db.cur(), where);
    if (c.chance(1, 4)) check_model(db.txn(), db.cur(), where);
  }
};

// several processes share one sequence
struct Got {
  uint64_t from, inc, txn;
};
int child(const Bytes &path, const EnvCfg &g, uint64_t seed, unsigned n, int fd) {
  vf_child_init();
  vf::Bulk r(seed);
  MDBX_env *env;
  int rc = mdbx_env_create(&env);
  if (rc) return 10;
  mdbx_env_set_maxdbs(env, 4);
  if ((rc = mdbx_env_open(env, path.c_str(), (MDBX_env_flags_t)g.flags, 0644))) return 11;
  for (unsigned i = 0; i < n; ++i) {
    MDBX_txn *t;
    if ((rc = mdbx_txn_begin(env, nullptr, (MDBX_txn_flags_t)0, &t))) return 12;
    MDBX_dbi d;
    if ((rc = mdbx_dbi_open(t, "s", MDBX_CREATE, &d))) return 13;
    Got q{0, 1 + r.below(3), mdbx_txn_id(t)};
    if ((rc = mdbx_dbi_sequence(t, d, &q.from, q.inc))) return 14;
    if (r.below(3) == 0) {
      if (mdbx_txn_abort(t)) return 15;
      continue;
    }
    if (r.below(2)) {
      uint64_t more;
      if (mdbx_dbi_sequence(t, d, &more, 2)) return 14;
      if (more != q.from + q.inc) return 16;
      q.inc += 2;
    }
    if (mdbx_txn_commit(t)) return 17;
    if (write(fd, &q, sizeof q) != sizeof q) return 18;
  }
  mdbx_env_close(env);
  return 0;
}
void many(Ctx &c) {
  CfgReq rq;
  EnvCfg g = gen_cfg(c, rq);
  g.flags &= ~MDBX_EXCLUSIVE;
  g.flags &= MDBX_NOSUBDIR | MDBX_WRITEMAP | MDBX_LIFORECLAIM | MDBX_SAFE_NOSYNC | MDBX_NOMETASYNC | MDBX_UTTERLY_NOSYNC;
  g.opts.clear();
  Env e;
  int rc = e.open(c, c.dir + "/db", g);
  if (rc) c.fail("open: %s", rcname(rc));
  e.close();
  const unsigned n = 2 + c.below(2), per = 5 + c.below(20);
  int fd[2];
  if (pipe(fd)) c.inconclusive("pipe");
  std::vector<pid_t> kids;
  for (unsigned i = 0; i < n; ++i) {
    uint64_t seed = c.seed32();
    pid_t p = fork();
    if (p == 0) {
      close(fd[0]);
      _exit(child(c.dir + "/db", g, seed, per, fd[1]));
    }
    kids.push_back(p);
  }
  close(fd[1]);
  std::vector<Got> got;
  Got q;
  while (read(fd[0], &q, sizeof q) == sizeof q) got.push_back(q);
  close(fd[0]);
  for (auto p : kids) {
    int st = 0;
    waitpid(p, &st, 0);
    if (!WIFEXITED(st)) c.fail("a process incrementing the sequence was killed by signal %d", WTERMSIG(st));
    if (WEXITSTATUS(st)) c.fail("a process incrementing the sequence failed at step %d", WEXITSTATUS(st));
  }
  std::sort(got.begin(), got.end(), [](const Got &a, const Got &b) { return a.txn < b.txn; });
  uint64_t next = 0;
  for (size_t i = 0; i < got.size(); ++i) {
    if (i && got[i].txn == got[i - 1].txn) c.fail("two committed transactions have number %llu", (unsigned long long)got[i].txn);
    if (got[i].from != next) c.fail("transaction %llu got number %llu, expected %llu", (unsigned long long)got[i].txn, (unsigned long long)got[i].from, (unsigned long long)next);
    next += got[i].inc;
  }
  rc = e.open(c, c.dir + "/db", g);
  if (rc) c.fail("reopening: %s", rcname(rc));
  MDBX_txn *t;
  MDBX_dbi d;
  uint64_t s = 0;
  if ((rc = mdbx_txn_begin(e.env, nullptr, MDBX_TXN_RDONLY, &t))) c.fail("begin: %s", rcname(rc));
  rc = mdbx_dbi_open(t, "s", MDBX_DB_DEFAULTS, &d);
  if (rc == MDBX_SUCCESS) {
    rc = mdbx_dbi_sequence(t, d, &s, 0);
    if (rc) c.fail("sequence: %s", rcname(rc));
  } else if (rc != MDBX_NOTFOUND || !got.empty())
    c.fail("opening the table: %s", rcname(rc));
  if (s != next) c.fail("the sequence is %llu after %zu commits, expected %llu", (unsigned long long)s, got.size(), (unsigned long long)next);
  mdbx_txn_abort(t);
  e.close();
  c.label("processes", n);
  c.nontrivial();
}
} // namespace
void vf::run_case(Ctx &c) {
  if (c.chance(1, 60)) return many(c);
  S s(c);
  s.run();
  if (s.seq_committed && s.seq_undone) c.nontrivial();
}
