#include "mp.hpp"
#include <errno.h>
#include <algorithm>
#include <array>
#include <cstdarg>
#include <signal.h>

namespace mp {

Model apply_ops(const Model &m0, const Op *ops, int n, int rec, unsigned ps) {
  std::vector<Model> st{m0};
  for (int i = 0; i < n; ++i) {
    const Op &o = ops[i];
    Model &m = st.back();
    switch (o.k) {
    case O_PUT:
    case O_BIG:
      m.rw("a").set(akey(o.key), aval(ps, o.seed, o.k == O_BIG));
      break;
    case O_DEL:
      m.rw("a").del(akey(o.key));
      break;
    case O_DPUT:
      for (unsigned j = 0; j <= o.n; ++j)
        m.rw("d").add(akey(o.key), dval(o.seed + j * 7));
      break;
    case O_DDEL:
      m.rw("d").del(akey(o.key));
      break;
    case O_DDELV:
      m.rw("d").del(akey(o.key), dval(o.seed));
      break;
    case O_BULKPUT:
      for (unsigned j = 0; j <= o.n; ++j)
        m.rw("a").set(akey(o.key + j), aval(ps, o.seed + j, false));
      break;
    case O_BULKDEL:
      for (unsigned j = 0; j <= o.n; ++j)
        m.rw("a").del(akey(o.key + j));
      break;
    case O_CLEAR:
      m.rw("a").clear();
      break;
    case O_DCLEAR:
      m.rw("d").clear();
      break;
    case O_NEST:
      st.push_back(st.back());
      break;
    case O_JOIN:
      if (st.size() > 1) {
        Model t = st.back();
        st.pop_back();
        st.back() = t;
      }
      break;
    case O_DROPNEST:
      if (st.size() > 1)
        st.pop_back();
      break;
    }
  }
  while (st.size() > 1) {
    Model t = st.back();
    st.pop_back();
    st.back() = t;
  }
  Model r = st[0];
  Bytes mk(4, 0);
  memcpy(&mk[0], &rec, 4);
  r.rw("a").set(MARK, mk);
  return r;
}

int apply_real(MDBX_txn *top, MDBX_dbi a, MDBX_dbi d, const Op *ops, int n, unsigned ps, std::vector<MDBX_txn *> &nest) {
  nest = {top};
  auto put = [&](MDBX_dbi t, const Bytes &k, const Bytes &v) {
    MDBX_val kk = V(k), vv = V(v);
    return mdbx_put(nest.back(), t, &kk, &vv, MDBX_UPSERT);
  };
  auto del = [&](MDBX_dbi t, const Bytes &k, const Bytes *v) {
    MDBX_val kk = V(k), vv;
    if (v)
      vv = V(*v);
    int rc = mdbx_del(nest.back(), t, &kk, v ? &vv : nullptr);
    return rc == MDBX_NOTFOUND ? 0 : rc;
  };
  int rc = 0;
  for (int i = 0; i < n && !rc; ++i) {
    const Op &o = ops[i];
    switch (o.k) {
    case O_PUT:
    case O_BIG:
      rc = put(a, akey(o.key), aval(ps, o.seed, o.k == O_BIG));
      break;
    case O_DEL:
      rc = del(a, akey(o.key), nullptr);
      break;
    case O_DPUT:
      for (unsigned j = 0; j <= o.n && !rc; ++j)
        rc = put(d, akey(o.key), dval(o.seed + j * 7));
      break;
    case O_DDEL:
      rc = del(d, akey(o.key), nullptr);
      break;
    case O_DDELV: {
      Bytes v = dval(o.seed);
      rc = del(d, akey(o.key), &v);
      break;
    }
    case O_BULKPUT:
      for (unsigned j = 0; j <= o.n && !rc; ++j)
        rc = put(a, akey(o.key + j), aval(ps, o.seed + j, false));
      break;
    case O_BULKDEL:
      for (unsigned j = 0; j <= o.n && !rc; ++j)
        rc = del(a, akey(o.key + j), nullptr);
      break;
    case O_CLEAR:
      rc = mdbx_drop(nest.back(), a, false);
      break;
    case O_DCLEAR:
      rc = mdbx_drop(nest.back(), d, false);
      break;
    case O_NEST: {
      MDBX_txn *t = nullptr;
      rc = mdbx_txn_begin(mdbx_txn_env(top), nest.back(), MDBX_TXN_READWRITE, &t);
      if (!rc)
        nest.push_back(t);
      break;
    }
    case O_JOIN:
      if (nest.size() > 1) {
        rc = mdbx_txn_commit(nest.back());
        nest.pop_back();
      }
      break;
    case O_DROPNEST:
      if (nest.size() > 1) {
        rc = mdbx_txn_abort(nest.back());
        nest.pop_back();
      }
      break;
    }
  }
  while (!rc && nest.size() > 1) {
    rc = mdbx_txn_commit(nest.back());
    nest.pop_back();
  }
  return rc;
}

// ------------------------------------------------------------- shared by the actors of a case
struct World {
  Ctx &c;
  Profile p;
  EnvCfg cfg;
  Bytes path;
  Shm *s = nullptr;
  unsigned ps;
  bool sticky, kills, shared_control = false;
  std::vector<std::vector<Step>> steps; // per actor
  std::vector<unsigned> proc_of, first_of; // per actor, per process
  std::vector<unsigned> nthreads;
  std::vector<bool> late;
  explicit World(Ctx &c) : c(c), ps(4096) {}
  std::map<int, Model> models;
  const Model &model(int r) {
    auto it = models.find(r);
    if (it != models.end())
      return it->second;
    Model base;
    const Rec &q = s->rec[r];
    if (q.pred >= 0)
      base = model(q.pred);
    else
      base.t["a"] = std::make_shared<MTable>(0), base.t["d"] = std::make_shared<MTable>(MDBX_DUPSORT);
    return models[r] = apply_ops(base, q.ops, q.nops, r, ps);
  }
  uint64_t live_pages(int r) {
    uint64_t n = 0;
    const Model m = model(r);
    for (auto &e : m.ro("a").m)
      n += e.second[0].size() / ps + 2;
    return n + m.ro("d").items * 20 / ps + 30;
  }
  void tr(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
    if (!c.tracing)
      return;
    char b[900];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    c.trace("[%d] %s", sched::self(), b);
  }
  uint64_t floor() const {
    uint64_t f = s->maxT;
    for (int i = 0; i < s->nrec; ++i)
      if (s->rec[i].state == R_DONE)
        f = std::max(f, s->rec[i].id);
    return f;
  }
  int mark(MDBX_txn *t, MDBX_dbi a, int &rc) {
    MDBX_val k = V(MARK), v;
    rc = mdbx_get(t, a, &k, &v);
    if (rc)
      return -1;
    int r = -1;
    if (v.iov_len != 4)
      c.fail("the marker of the last transaction has %zu bytes", v.iov_len);
    memcpy(&r, v.iov_base, 4);
    return r;
  }
  // the snapshot T contains record r as the last one: is it a legal prefix?
  void check_prefix(int r, uint64_t T, uint64_t clk0, const char *where, bool own_write = false) {
    if (r < 0 || r >= s->nrec)
      c.fail("%s: snapshot %llu carries an impossible marker %d", where, (unsigned long long)T, r);
    std::vector<bool> in(MAXREC);
    for (int i = r; i >= 0; i = s->rec[i].pred) {
      Rec &q = s->rec[i];
      in[i] = true;
      if (q.state == R_DEAD || q.state == R_OPEN)
        c.fail("%s: snapshot %llu contains the changes of transaction %llu (record %d), which was %s", where,
               (unsigned long long)T, (unsigned long long)q.id, i, q.state == R_DEAD ? "not committed" : "never submitted for commit");
      if (q.id > T || (own_write && q.id >= T))
        c.fail("%s: snapshot %llu contains the changes of the later transaction %llu", where, (unsigned long long)T,
               (unsigned long long)q.id);
      if (q.pred >= 0 && s->rec[q.pred].id >= q.id)
        c.fail("%s: transaction %llu follows transaction %llu", where, (unsigned long long)q.id,
               (unsigned long long)s->rec[q.pred].id);
      q.seen = true;
    }
    for (int i = 0; i < s->nrec; ++i) {
      Rec &q = s->rec[i];
      if (in[i])
        continue;
      if (q.state == R_DONE && (q.clk <= clk0 || q.id <= T))
        c.fail("%s: snapshot %llu lacks transaction %llu (record %d), whose commit had returned", where, (unsigned long long)T,
               (unsigned long long)q.id, i);
      if (q.state == R_PENDING && q.seen && q.id <= T)
        c.fail("%s: snapshot %llu lacks transaction %llu (record %d), which was seen before", where, (unsigned long long)T,
               (unsigned long long)q.id, i);
    }
  }
};

static World *W;
static int hsr(const MDBX_env *env, const MDBX_txn *txn, mdbx_pid_t pid, mdbx_tid_t tid, uint64_t laggard, unsigned gap,
               size_t space, int retry) noexcept;

// Nothing left behind pins old snapshots: rewriting reuses the space.
static void reuse_check(Ctx &c, MDBX_env *env, MDBX_dbi z, uint64_t live, unsigned ps, bool tight, const char *where) {
  int rc;
  auto used = [&] {
    MDBX_envinfo in;
    if ((rc = mdbx_env_info_ex(env, nullptr, &in, sizeof in)))
      c.fail("%s: mdbx_env_info_ex: %s", where, rcname(rc));
    return in.mi_last_pgno + 1;
  };
  const uint64_t before = used();
  for (int i = 0; i < 30; ++i) {
    MDBX_txn *wt;
    if ((rc = mdbx_txn_begin(env, nullptr, MDBX_TXN_READWRITE, &wt)))
      c.fail("%s: a write transaction: %s", where, rcname(rc));
    if (!z && (rc = mdbx_dbi_open(wt, "z", MDBX_DB_DEFAULTS, &z)))
      c.fail("%s: mdbx_dbi_open: %s", where, rcname(rc));
    bool full = false;
    for (unsigned k = 0; k < 12 && !full; ++k) {
      Bytes kb = akey(k), vb(ps * 4, char(i + k));
      MDBX_val kk = V(kb), vv = V(vb);
      rc = mdbx_put(wt, z, &kk, &vv, MDBX_UPSERT);
      if (rc == MDBX_TXN_FULL || (rc == MDBX_MAP_FULL && tight))
        full = true;
      else if (rc)
        c.fail("%s: writing: %s", where, rcname(rc));
    }
    if (full)
      mdbx_txn_abort(wt);
    else if ((rc = mdbx_txn_commit(wt))) {
      if (rc == MDBX_TXN_FULL || (rc == MDBX_MAP_FULL && tight))
        full = true;
      else
        c.fail("%s: commit: %s", where, rcname(rc));
    }
    if (full)
      return;
    if (c.tracing)
      c.trace("rewriting %d: %llu pages used", i, (unsigned long long)used());
    rc = mdbx_env_sync_ex(env, true, false); // space freed after the last steady commit is kept
    if (rc && rc != MDBX_RESULT_TRUE)
      c.fail("%s: mdbx_env_sync: %s", where, rcname(rc));
  }
  const uint64_t after = used();
  c.label("reuse checks");
  if (after > before + 12 * 5 * 4 + 2 * live + 200)
    c.fail("%s: rewriting 12 values of 4 pages 30 times let the database grow from %llu to %llu pages (live about %llu)", where,
           (unsigned long long)before, (unsigned long long)after, (unsigned long long)live);
}

struct Actor {
  World &w;
  Ctx &c;
  Shm &s;
  unsigned id, proc, rid;
  bool child = false;
  struct Proc {
    MDBX_env *env = nullptr;
    MDBX_dbi a = 0, d = 0;
  } &pr;
  struct Ptr {
    const char *p;
    Bytes was;
  };
  struct Slot {
    MDBX_txn *t = nullptr;
    bool live = false, parked = false, autounpark = false;
    uint64_t T = 0;
    int rec = -1;
    std::vector<Ptr> ptrs;
  } slot[4];
  Db chk;
  Actor(World &w, unsigned id, Proc &pr) : w(w), c(w.c), s(*w.s), id(id), proc(w.proc_of[id]), rid(id), pr(pr), chk(w.c) {}
  unsigned nslots() const { return w.sticky ? 1 : 3; }

  // ---- environment
  void open_env() {
    for (int tries = 0;; ++tries) {
      MDBX_env *e = nullptr;
      int rc = mdbx_env_create(&e);
      if (rc)
        c.fail("mdbx_env_create: %s", rcname(rc));
      mdbx_env_set_option(e, MDBX_opt_max_db, 4);
      if (w.cfg.max_readers)
        mdbx_env_set_option(e, MDBX_opt_max_readers, w.cfg.max_readers);
      for (auto &o : w.cfg.opts)
        if ((rc = mdbx_env_set_option(e, o.first, o.second)))
          c.fail("mdbx_env_set_option(%d): %s", (int)o.first, rcname(rc));
      s.opening[proc] = true;
      rc = mdbx_env_open(e, w.path.c_str(), (MDBX_env_flags_t)w.cfg.flags, 0600);
      w.tr("open -> %s", rcname(rc));
      if (rc == 0) {
        if (w.p.hsr)
          mdbx_env_set_hsr(e, hsr);
        pr.env = e;
        s.opening[proc] = false;
        break;
      }
      mdbx_env_close(e);
      s.opening[proc] = false;
      if (rc != MDBX_BUSY || tries > 200)
        c.fail("mdbx_env_open by process %u: %s (try %d)", proc, rcname(rc), tries);
      c.label("open: busy");
      sched::yield();
    }
    MDBX_txn *t;
    uint64_t fl = w.floor();
    int rc = mdbx_txn_begin(pr.env, nullptr, MDBX_TXN_RDONLY, &t);
    if (rc)
      c.fail("the first read transaction of process %u: %s", proc, rcname(rc));
    if (mdbx_txn_id(t) < fl)
      c.fail("a fresh process got snapshot %llu although %llu was committed", (unsigned long long)mdbx_txn_id(t),
             (unsigned long long)fl);
    int r1 = mdbx_dbi_open(t, "a", MDBX_DB_DEFAULTS, &pr.a), r2 = mdbx_dbi_open(t, "d", MDBX_DUPSORT, &pr.d);
    if (r1 || r2)
      c.fail("mdbx_dbi_open by process %u at snapshot %llu: %s, %s", proc, (unsigned long long)mdbx_txn_id(t), rcname(r1), rcname(r2));
    rc = mdbx_txn_commit(t); // keeps the handles
    if (rc)
      c.fail("commit of a read transaction: %s", rcname(rc));
    s.pid[proc] = getpid();
    s.env_ready[proc] = true;
  }
  void close_env() {
    s.env_ready[proc] = false;
    MDBX_env *e = pr.env;
    pr.env = nullptr;
    s.inclose[proc] = true;
    int rc = mdbx_env_close_ex(e, false);
    s.inclose[proc] = false;
    w.tr("close -> %s", rcname(rc));
    if (rc == MDBX_BUSY)
      c.label("close: busy");
    else if (rc)
      c.fail("mdbx_env_close: %s", rcname(rc));
  }

  // ---- readers
  void note(unsigned i, bool live, bool unsure = false) {
    auto &r = s.rd[rid][i];
    r.pid = getpid(), r.T = slot[i].T, r.live = live, r.unsure = unsure, r.parked = slot[i].parked;
  }
  bool consented(uint64_t T) const {
    for (int i = 0; i < s.nconsent; ++i)
      if (s.consent[i].txnid == T && s.consent[i].pid == (uint64_t)getpid())
        return true;
    return false;
  }
  void remember(Slot &q, const MDBX_val &v) {
    if (q.ptrs.size() < 24)
      q.ptrs.push_back({(const char *)v.iov_base, B(v)});
  }
  void check_ptrs(Slot &q, const char *where) {
    for (auto &p : q.ptrs)
      if (!p.was.empty() && memcmp(p.p, p.was.data(), p.was.size()))
        c.fail("%s: bytes of %zu bytes behind a pointer obtained earlier in snapshot %llu have changed", where, p.was.size(),
               (unsigned long long)q.T);
  }
  void fresh(unsigned i, uint64_t fl, uint64_t clk0, const char *how) { // slot i has just got a snapshot
    Slot &q = slot[i];
    q.live = true, q.parked = false;
    q.ptrs.clear();
    q.T = mdbx_txn_id(q.t);
    note(i, true);
    int rc;
    q.rec = w.mark(q.t, pr.a, rc);
    w.tr("%s slot %u -> snapshot %llu, record %d", how, i, (unsigned long long)q.T, q.rec);
    if (rc)
      c.fail("%s: reading the marker in snapshot %llu: %s", how, (unsigned long long)q.T, rcname(rc));
    if (q.T < fl)
      c.fail("%s: got snapshot %llu, but %llu had been committed or seen before", how, (unsigned long long)q.T,
             (unsigned long long)fl);
    w.check_prefix(q.rec, q.T, clk0, how);
    s.maxT = std::max(s.maxT, q.T);
  }
  void dead_slot(unsigned i) {
    Slot &q = slot[i];
    q.live = q.parked = false;
    q.ptrs.clear();
    note(i, false);
  }
  void begin(unsigned i) {
    Slot &q = slot[i];
    uint64_t fl = w.floor(), clk = sched::now();
    s.rd[rid][i].unsure = true;
    int rc;
    if (q.t)
      rc = mdbx_txn_renew(q.t);
    else
      rc = mdbx_txn_begin(pr.env, nullptr, MDBX_TXN_RDONLY, &q.t);
    if (rc == MDBX_READERS_FULL && w.cfg.max_readers) {
      c.label("readers full");
      s.rd[rid][i].unsure = false;
      return;
    }
    if (rc)
      c.fail("starting a read transaction: %s", rcname(rc));
    fresh(i, fl, clk, "begin");
    c.label("read transactions");
  }
  void end(unsigned i, bool keep) {
    Slot &q = slot[i];
    if (!q.t)
      return;
    if (q.live && !q.parked)
      check_ptrs(q, "before the end");
    s.rd[rid][i].unsure = true;
    int rc;
    if (keep && q.live) {
      rc = mdbx_txn_reset(q.t);
      w.tr("reset slot %u -> %s", i, rcname(rc));
    } else {
      rc = mdbx_txn_abort(q.t);
      w.tr("abort slot %u -> %s", i, rcname(rc));
      q.t = nullptr;
    }
    if (rc)
      c.fail("ending the read transaction of snapshot %llu: %s", (unsigned long long)q.T, rcname(rc));
    dead_slot(i);
  }
  void ousted(unsigned i, const char *how, bool restarted, uint64_t fl, uint64_t clk) {
    Slot &q = slot[i];
    if (!q.parked)
      c.fail("%s: a read transaction of snapshot %llu which is not parked was ousted", how, (unsigned long long)q.T);
    c.label(restarted ? "ousted: restarted" : "ousted: reported");
    if (restarted)
      fresh(i, fl, clk, how);
    else
      dead_slot(i);
  }
  // makes the reader usable; false when it is over
  bool touch(unsigned i) {
    Slot &q = slot[i];
    if (!q.live)
      return false;
    if (!q.parked)
      return true;
    if (!q.autounpark)
      return unpark(i, false);
    // automatic: the next reading call does it
    MDBX_val k = V(MARK), v;
    int rc = mdbx_get(q.t, pr.a, &k, &v);
    w.tr("autounpark slot %u -> %s", i, rcname(rc));
    if (rc == MDBX_OUSTED) {
      ousted(i, "automatic unpark", false, 0, 0);
      return false;
    }
    if (rc)
      c.fail("reading through an automatically unparked transaction: %s", rcname(rc));
    int r;
    memcpy(&r, v.iov_base, 4);
    if (r != q.rec)
      c.fail("an automatically unparked transaction of snapshot %llu shows record %d instead of %d", (unsigned long long)q.T, r, q.rec);
    q.parked = false;
    note(i, true);
    if (mdbx_txn_id(q.t) != q.T)
      c.fail("an automatically unparked transaction moved from snapshot %llu to %llu", (unsigned long long)q.T,
             (unsigned long long)mdbx_txn_id(q.t));
    c.label("unparked automatically");
    return true;
  }
  bool unpark(unsigned i, bool restart) {
    Slot &q = slot[i];
    uint64_t fl = w.floor(), clk = sched::now();
    s.rd[rid][i].unsure = true;
    int rc = mdbx_txn_unpark(q.t, restart);
    w.tr("unpark slot %u%s -> %s", i, restart ? " (restart)" : "", rcname(rc));
    if (rc == MDBX_OUSTED) {
      if (restart)
        c.fail("mdbx_txn_unpark(restart) returned MDBX_OUSTED");
      ousted(i, "unpark", false, 0, 0);
      return false;
    }
    if (rc == MDBX_RESULT_TRUE) {
      if (!restart)
        c.fail("mdbx_txn_unpark() restarted the transaction without being asked");
      ousted(i, "unpark", true, fl, clk);
      return true;
    }
    if (rc)
      c.fail("mdbx_txn_unpark: %s", rcname(rc));
    if (mdbx_txn_id(q.t) != q.T)
      c.fail("an unparked transaction moved from snapshot %llu to %llu", (unsigned long long)q.T, (unsigned long long)mdbx_txn_id(q.t));
    q.parked = false;
    note(i, true);
    c.label("unparked");
    check_ptrs(q, "after unpark");
    return true;
  }
  void verify(unsigned i, bool backwards) {
    Slot &q = slot[i];
    char where[80];
    snprintf(where, sizeof where, "reader of snapshot %llu (record %d)", (unsigned long long)q.T, q.rec);
    const Model m = w.model(q.rec);
    chk.check_table(q.t, pr.a, m.ro("a"), where, backwards);
    chk.check_table(q.t, pr.d, m.ro("d"), where, backwards);
    check_ptrs(q, where);
    if (mdbx_txn_id(q.t) != q.T)
      c.fail("%s: the snapshot number became %llu", where, (unsigned long long)mdbx_txn_id(q.t));
    c.label("full verifications");
  }
  void peek(unsigned i, unsigned a, unsigned n) {
    Slot &q = slot[i];
    const Model m = w.model(q.rec);
    char where[60];
    snprintf(where, sizeof where, "lookup in snapshot %llu", (unsigned long long)q.T);
    for (unsigned j = 0; j < n; ++j) {
      Bytes kb = akey((a + j * 13) % w.p.nkeys);
      MDBX_val k = V(kb), v;
      int rc = mdbx_get(q.t, pr.a, &k, &v);
      const Bytes *x = m.ro("a").get(kb);
      if (rc != (x ? 0 : MDBX_NOTFOUND) || (x && !eqv(v, *x)))
        c.fail("%s: %s -> %s, expected %s", where, show(kb).c_str(), rc ? rcname(rc) : show(B(v)).c_str(), x ? show(*x).c_str() : "NOTFOUND");
      if (!rc)
        remember(q, v);
    }
    check_ptrs(q, where);
  }

  // ---- writers
  bool tolerable(int rc) const {
    return (rc == MDBX_MAP_FULL && w.p.tight) || (rc == MDBX_TXN_FULL && w.cfg.small_dp) ||
           (rc == MDBX_UNABLE_EXTEND_MAPSIZE && w.p.tight);
  }
  int new_rec(const std::vector<Op> &ops, int pred) {
    if (s.nrec >= MAXREC)
      c.inconclusive("too many records");
    int r = s.nrec++;
    Rec &q = s.rec[r];
    q.state = R_OPEN, q.pred = pred, q.actor = id, q.nops = std::min<size_t>(ops.size(), MAXOPS);
    for (int i = 0; i < q.nops; ++i)
      q.ops[i] = ops[i];
    return r;
  }
  // Without sticky threads a write transaction belongs to the whole process, and control functions called by any thread
  // work inside of it: see the known finding nosticky-shared-writer.
  bool exclusive_control() const { return !w.sticky && w.nthreads[proc] > 1; }
  struct Control {
    Actor &a;
    bool on;
    explicit Control(Actor &a) : a(a), on(a.exclusive_control()) {
      if (on) {
        if (!a.w.shared_control)
          sched::wait_until([&] { return !a.s.writing[a.proc]; }, "waiting for the writer of the process");
        a.s.controlling[a.proc]++;
        if (a.s.writing[a.proc])
          a.s.shared_hit = true;
      }
    }
    ~Control() {
      if (on)
        a.s.controlling[a.proc]--;
    }
  };
  struct Writing {
    Actor &a;
    bool on;
    explicit Writing(Actor &a) : a(a), on(a.exclusive_control()) {
      if (on) {
        if (!a.w.shared_control)
          sched::wait_until([&] { return !a.s.controlling[a.proc]; }, "waiting for a control call of the process");
        a.s.writing[a.proc]++;
        if (a.s.controlling[a.proc])
          a.s.shared_hit = true;
      }
    }
    ~Writing() {
      if (on)
        a.s.writing[a.proc]--;
    }
  };
  void write(const Step &st, MDBX_txn *t = nullptr) {
    Writing guard(*this);
    uint64_t fl = w.floor(), clk = sched::now();
    int rc;
    const bool amended = t != nullptr;
    if (!t) {
      static const unsigned F[] = {0, 0, 0, MDBX_TXN_NOSYNC, MDBX_TXN_NOMETASYNC, 0};
      unsigned flags = F[(st.b >> 4) % 6];
      if (st.b & 1)
        flags |= MDBX_TXN_TRY;
      rc = mdbx_txn_begin(pr.env, nullptr, (MDBX_txn_flags_t)flags, &t);
      if (rc == MDBX_BUSY && (flags & MDBX_TXN_TRY)) {
        c.label("write: busy");
        w.tr("write TRY -> busy");
        return;
      }
      if (rc)
        c.fail("starting a write transaction: %s", rcname(rc));
    }
    uint64_t T = mdbx_txn_id(t);
    int pred = w.mark(t, pr.a, rc);
    w.tr("write%s: transaction %llu on record %d", amended ? " (amend)" : "", (unsigned long long)T, pred);
    if (rc)
      c.fail("write transaction %llu cannot read the marker: %s", (unsigned long long)T, rcname(rc));
    if (T <= fl)
      c.fail("write transaction got number %llu, but %llu had been committed or seen before", (unsigned long long)T, (unsigned long long)fl);
    w.check_prefix(pred, T, clk, "start of a write transaction", true);
    // nobody else may write now: every submitted transaction either is visible or failed
    for (int i = 0; i < s.nrec; ++i)
      if (s.rec[i].state == R_OPEN && !sched::finished(s.rec[i].actor) && s.rec[i].actor != (int)id)
        c.fail("two write transactions at once: actor %d works on record %d", s.rec[i].actor, i);
    if (st.b & 2) {
      const Model m = w.model(pred);
      chk.check_table(t, pr.a, m.ro("a"), "start of a write transaction");
      chk.check_table(t, pr.d, m.ro("d"), "start of a write transaction");
    }
    std::vector<MDBX_txn *> nest;
    for (size_t seg = 0; seg < st.segs.size(); ++seg) {
      int r = new_rec(st.segs[seg], pred);
      Rec &q = s.rec[r];
      q.id = T;
      rc = apply_real(t, pr.a, pr.d, q.ops, q.nops, w.ps, nest);
      if (!rc) {
        MDBX_val k = V(MARK), v{&r, 4};
        rc = mdbx_put(t, pr.a, &k, &v, MDBX_UPSERT);
      }
      if (!rc && seg == 0 && !st.sub.empty() && w.nthreads[proc] == 1 && !child) {
        forked(st, t);
        rc = mdbx_txn_id(t) == T ? 0 : MDBX_PROBLEM;
      }
      if (rc) {
        if (!tolerable(rc))
          c.fail("a change in write transaction %llu: %s", (unsigned long long)T, rcname(rc));
        c.label(rc == MDBX_MAP_FULL ? "write: map full" : "write: full");
        w.tr("record %d: %s, abort", r, rcname(rc));
        q.state = R_DEAD;
        rc = mdbx_txn_abort(t);
        if (rc)
          c.fail("abort of write transaction %llu: %s", (unsigned long long)T, rcname(rc));
        return;
      }
      if (st.b & 4) {
        const Model m = w.model(r);
        chk.check_table(t, pr.a, m.ro("a"), "inside a write transaction", true);
        chk.check_table(t, pr.d, m.ro("d"), "inside a write transaction");
      }
      const bool last = seg + 1 == st.segs.size();
      if (last && st.a == F_ABORT) {
        q.state = R_DEAD;
        rc = mdbx_txn_abort(t);
        w.tr("record %d: abort -> %s", r, rcname(rc));
        if (rc)
          c.fail("abort of write transaction %llu: %s", (unsigned long long)T, rcname(rc));
        return;
      }
      const bool embark = last && st.a == F_EMBARK && !slot[0].t;
      q.state = R_PENDING;
      if (embark)
        s.rd[rid][0].unsure = true;
      MDBX_txn *t0 = t;
      uint64_t fl2 = w.floor(), clk2 = sched::now();
      rc = !last ? mdbx_txn_checkpoint(t, MDBX_TXN_NOWEAKING, nullptr) : embark ? mdbx_txn_commit_embark_read(&t, nullptr) : mdbx_txn_commit(t);
      w.tr("record %d: %s -> %s", r, !last ? "checkpoint" : embark ? "commit_embark_read" : "commit", rcname(rc));
      if (rc) {
        if (!tolerable(rc))
          c.fail("commit of write transaction %llu: %s", (unsigned long long)T, rcname(rc));
        c.label("commit: full");
        if (q.seen)
          c.fail("commit of transaction %llu failed with %s, but its changes have been seen", (unsigned long long)T, rcname(rc));
        q.state = R_DEAD;
        return; // terminated
      }
      q.state = R_DONE;
      q.clk = sched::now();
      c.label("commits");
      if (embark) {
        slot[0].t = t;
        fresh(0, fl2, clk2, "commit_embark_read");
        if (slot[0].rec != r || slot[0].T < T)
          c.fail("commit_embark_read of transaction %llu (record %d) reads snapshot %llu with record %d", (unsigned long long)T, r,
                 (unsigned long long)slot[0].T, slot[0].rec);
        c.label("embark read");
        return;
      }
      if (last)
        return;
      c.label("checkpoints");
      if (t != t0)
        c.fail("checkpoint changed the handle");
      uint64_t T2 = mdbx_txn_id(t);
      if (T2 <= T)
        c.fail("after a checkpoint transaction %llu became %llu", (unsigned long long)T, (unsigned long long)T2);
      T = T2;
      int rc2, mk = w.mark(t, pr.a, rc2);
      if (rc2 || mk != r)
        c.fail("after a checkpoint of record %d the transaction shows record %d (%s)", r, mk, rcname(rc2));
      pred = r;
    }
  }
  void end_for_write() {
    if (w.sticky)
      end(0, false);
  }

  static int rl_cb(void *ctx, int num, int slot, mdbx_pid_t pid, mdbx_tid_t thread, uint64_t txnid, uint64_t lag, size_t bytes_used,
                   size_t bytes_retained) noexcept {
    auto &v = *(std::vector<std::array<uint64_t, 6>> *)ctx;
    v.push_back({(uint64_t)slot, (uint64_t)pid, (uint64_t)thread, txnid, lag, bytes_retained});
    return 0;
  }
  void reader_list() {
    std::vector<std::array<uint64_t, 6>> v;
    // readers which are certainly there during the whole call
    std::vector<Shm::Rd> must;
    auto snap = [&] {
      std::vector<Shm::Rd> r;
      for (unsigned a = 0; a < w.steps.size(); ++a)
        if (!sched::killed(w.proc_of[a]))
          for (unsigned i = 0; i < 4; ++i)
            if (s.rd[a][i].live && !s.rd[a][i].unsure && !s.rd[a][i].parked)
              r.push_back(s.rd[a][i]);
      return r;
    };
    auto before = snap();
    int rc = mdbx_reader_list(pr.env, rl_cb, &v);
    auto after = snap();
    w.tr("reader_list -> %s, %zu entries", rcname(rc), v.size());
    if (rc != 0 && rc != MDBX_RESULT_TRUE)
      c.fail("mdbx_reader_list: %s", rcname(rc));
    for (auto &b : before) {
      bool still = false;
      for (auto &q : after)
        still |= q.pid == b.pid && q.T == b.T;
      if (!still)
        continue;
      bool found = false;
      for (auto &e : v)
        found |= e[1] == (uint64_t)b.pid && e[3] == b.T;
      if (!found)
        c.fail("the reader list lacks the reader of snapshot %llu in process %d", (unsigned long long)b.T, (int)b.pid);
    }
    c.label("reader lists");
  }

  void step(const Step &st) {
    unsigned i = st.slot % nslots();
    int rc;
    switch (st.k) {
    case S_WRITE:
      end_for_write();
      write(st);
      break;
    case S_BEGIN:
      if (!slot[i].live)
        begin(i);
      else if (touch(i))
        verify(i, st.a & 1);
      break;
    case S_VERIFY:
      if (touch(i))
        verify(i, st.a & 1);
      break;
    case S_PEEK:
      if (touch(i))
        peek(i, st.a, 1 + st.b % 12);
      break;
    case S_END:
      end(i, st.a & 1);
      break;
    case S_RENEW:
      if (slot[i].live) {
        end(i, true);
        begin(i);
      } else
        begin(i);
      break;
    case S_REFRESH:
      if (touch(i)) {
        Slot &q = slot[i];
        check_ptrs(q, "before refresh");
        uint64_t fl = w.floor(), clk = sched::now(), was = q.T;
        s.rd[rid][i].unsure = true;
        rc = mdbx_txn_refresh(q.t);
        w.tr("refresh slot %u -> %s", i, rcname(rc));
        if (rc == MDBX_RESULT_TRUE) {
          if (mdbx_txn_id(q.t) != was)
            c.fail("mdbx_txn_refresh reported no newer snapshot but moved from %llu to %llu", (unsigned long long)was, (unsigned long long)mdbx_txn_id(q.t));
          if (was < fl)
            c.fail("mdbx_txn_refresh: snapshot %llu is said to be the most recent, but %llu is committed", (unsigned long long)was, (unsigned long long)fl);
          note(i, true);
        } else if (rc)
          c.fail("mdbx_txn_refresh: %s", rcname(rc));
        else {
          fresh(i, fl, clk, "refresh");
          if (q.T < was)
            c.fail("mdbx_txn_refresh went back from snapshot %llu to %llu", (unsigned long long)was, (unsigned long long)q.T);
        }
        c.label("refresh");
      }
      break;
    case S_CLONE: {
      unsigned j = st.slot2 % nslots();
      if (w.sticky || j == i || slot[j].live || !touch(i))
        break;
      s.rd[rid][j].unsure = true;
      rc = mdbx_txn_clone(slot[i].t, &slot[j].t, nullptr);
      w.tr("clone slot %u -> slot %u: %s", i, j, rcname(rc));
      if (rc == MDBX_READERS_FULL && w.cfg.max_readers) {
        s.rd[rid][j].unsure = false;
        break;
      }
      if (rc)
        c.fail("mdbx_txn_clone of a running reader: %s", rcname(rc));
      slot[j].live = true, slot[j].parked = false, slot[j].T = mdbx_txn_id(slot[j].t), slot[j].ptrs.clear();
      note(j, true);
      if (slot[j].T != slot[i].T)
        c.fail("the clone of a reader of snapshot %llu reads %llu", (unsigned long long)slot[i].T, (unsigned long long)slot[j].T);
      slot[j].rec = slot[i].rec;
      c.label("clones");
      break;
    }
    case S_PARK:
      if (slot[i].live && !slot[i].parked) {
        check_ptrs(slot[i], "before park");
        s.rd[rid][i].unsure = true;
        rc = mdbx_txn_park(slot[i].t, st.a & 1);
        w.tr("park slot %u -> %s", i, rcname(rc));
        if (rc)
          c.fail("mdbx_txn_park: %s", rcname(rc));
        slot[i].parked = true, slot[i].autounpark = st.a & 1;
        note(i, true);
        if (st.a & 2) { // pointers stay comparable only if the snapshot survives
        } else
          slot[i].ptrs.clear();
        c.label("parks");
      }
      break;
    case S_UNPARK:
      if (slot[i].live && slot[i].parked && unpark(i, st.a & 1) && slot[i].live)
        verify(i, false);
      break;
    case S_SYNC: {
      const bool nonblock = st.a & 1, force = st.a & 2;
      Control guard(*this);
      rc = mdbx_env_sync_ex(pr.env, force, nonblock);
      w.tr("sync(force=%d,nonblock=%d) -> %s", force, nonblock, rcname(rc));
      if (rc != 0 && rc != MDBX_RESULT_TRUE && !(rc == MDBX_BUSY && nonblock) && !(rc == MDBX_MAP_FULL && w.p.tight))
        c.fail("mdbx_env_sync_ex(force=%d, nonblock=%d): %s", force, nonblock, rcname(rc));
      c.label("syncs");
      break;
    }
    case S_RCHECK: {
      int dead = -1;
      std::vector<pid_t> gone;
      for (unsigned q = 0; q < w.first_of.size(); ++q)
        if (sched::killed(q) && s.pid[q])
          gone.push_back(s.pid[q]);
      rc = mdbx_reader_check(pr.env, &dead);
      w.tr("reader_check -> %s, %d dead", rcname(rc), dead);
      if (rc != 0 && rc != MDBX_RESULT_TRUE)
        c.fail("mdbx_reader_check: %s", rcname(rc));
      if (dead > 0 && !w.kills)
        c.fail("mdbx_reader_check removed %d readers as dead, no process has died", dead);
      if (dead > 0)
        c.label("reader_check: dead removed", dead);
      if (!gone.empty()) {
        std::vector<std::array<uint64_t, 6>> v;
        mdbx_reader_list(pr.env, rl_cb, &v);
        for (auto &e : v)
          for (auto g : gone)
            if (e[1] == (uint64_t)g)
              c.fail("the reader list shows the dead process %d (snapshot %llu) after mdbx_reader_check", (int)g, (unsigned long long)e[3]);
      }
      break;
    }
    case S_GEO: {
      end_for_write();
      const unsigned ps = w.ps;
      intptr_t lower = st.a & 1 ? -1 : (intptr_t)std::max<size_t>(16384, 16 * ps), growth = (intptr_t)ps * (1 << (st.a >> 1) % 7),
               shrink = st.b & 1 ? growth : (st.b & 2) ? 0 : growth * 4;
      Control guard(*this);
      rc = mdbx_env_set_geometry(pr.env, lower, -1, -1, growth < 4096 ? 4096 : growth, shrink && shrink < 4096 ? 4096 : shrink, -1);
      w.tr("set_geometry(%zd,-1,-1,%zd,%zd) -> %s", lower, growth, shrink, rcname(rc));
      if (rc && !(w.p.tight && rc == MDBX_MAP_FULL))
        c.fail("mdbx_env_set_geometry(lower %zd, growth %zd, shrink %zd): %s", lower, growth, shrink, rcname(rc));
      c.label("geometry changes");
      break;
    }
    case S_REOPEN:
      if (w.nthreads[proc] != 1)
        break;
      for (unsigned j = 0; j < nslots(); ++j)
        end(j, false);
      close_env();
      open_env();
      c.label("reopens");
      break;
    case S_RLIST:
      reader_list();
      break;
    case S_AMEND:
      if (touch(i) && !st.segs.empty()) {
        Slot &q = slot[i];
        check_ptrs(q, "before amend");
        Writing guard(*this);
        uint64_t fl = w.floor();
        MDBX_txn *t = nullptr;
        s.rd[rid][i].unsure = true;
        rc = mdbx_txn_amend(q.t, &t, (MDBX_txn_flags_t)((st.b & 1) ? MDBX_TXN_TRY : 0), nullptr);
        w.tr("amend slot %u of snapshot %llu -> %s", i, (unsigned long long)q.T, rcname(rc));
        if (rc == MDBX_OUSTED && !(st.b & 1)) {
          c.label("amend: ousted while waiting");
          dead_slot(i);
        } else if (rc == MDBX_RESULT_TRUE) {
          c.label("amend: outdated");
          note(i, true);
          if (mdbx_txn_id(q.t) != q.T)
            c.fail("a refused mdbx_txn_amend changed the reader");
          verify(i, false);
        } else if (rc == MDBX_BUSY && (st.b & 1)) {
          note(i, true);
          verify(i, false);
        } else if (rc)
          c.fail("mdbx_txn_amend: %s", rcname(rc));
        else {
          if (q.T < fl)
            c.fail("mdbx_txn_amend of snapshot %llu succeeded, but %llu was committed", (unsigned long long)q.T, (unsigned long long)fl);
          int rec = q.rec;
          q.t = nullptr;
          dead_slot(i);
          int rc2, mk = w.mark(t, pr.a, rc2);
          if (rc2 || mk != rec)
            c.fail("an amended transaction of record %d shows record %d (%s)", rec, mk, rcname(rc2));
          c.label("amend: done");
          write(st, t);
        }
      }
      break;
    case S_INFO: {
      MDBX_envinfo in;
      uint64_t fl = w.floor();
      rc = mdbx_env_info_ex(pr.env, nullptr, &in, sizeof in);
      if (rc)
        c.fail("mdbx_env_info_ex: %s", rcname(rc));
      if (in.mi_recent_txnid < fl)
        c.fail("mdbx_env_info_ex: the recent transaction is said to be %llu, but %llu was committed", (unsigned long long)in.mi_recent_txnid, (unsigned long long)fl);
      for (unsigned j = 0; j < nslots(); ++j)
        if (slot[j].live && !slot[j].parked) {
          MDBX_txn_info ti;
          rc = mdbx_txn_info(slot[j].t, &ti, st.a & 1);
          if (rc)
            c.fail("mdbx_txn_info: %s", rcname(rc));
          if (ti.txn_id != slot[j].T)
            c.fail("mdbx_txn_info reports snapshot %llu instead of %llu", (unsigned long long)ti.txn_id, (unsigned long long)slot[j].T);
          if (ti.txn_reader_lag < (fl > slot[j].T ? fl - slot[j].T : 0))
            c.fail("mdbx_txn_info: the reader of snapshot %llu is said to lag %llu behind, but %llu was committed",
                   (unsigned long long)slot[j].T, (unsigned long long)ti.txn_reader_lag, (unsigned long long)fl);
        }
      break;
    }
    case S_FORK:
      if (w.nthreads[proc] == 1 && !child)
        forked(st, nullptr);
      break;
    }
  }

  // The environment is taken over by a child process, while the parent goes on afterwards.
  void forked(const Step &st, MDBX_txn *writing) {
    w.tr("fork%s", writing ? " within a write transaction" : "");
    c.label(writing ? "forks within a write transaction" : "forks");
    sched::fork_here([&] {
      child = true;
      rid = id + sched::MAXACT;
      for (auto &r : s.rd[rid])
        r = {};
      Slot old[4];
      for (unsigned i = 0; i < 4; ++i)
        std::swap(old[i], slot[i]);
      int rc;
      if (st.a % 8 != 0) {
        rc = mdbx_env_resurrect_after_fork(pr.env);
        w.tr("child: resurrect -> %s", rcname(rc));
        if (rc)
          c.fail("mdbx_env_resurrect_after_fork(): %s", rcname(rc));
        for (auto &q : old)
          if (q.t && (st.b & 2)) {
            rc = mdbx_txn_abort(q.t);
            w.tr("child: abort of a reader of the parent -> %s", rcname(rc));
          }
        for (auto &x : st.sub) {
          if (writing && (x.k == S_WRITE || x.k == S_AMEND || x.k == S_SYNC || x.k == S_GEO))
            continue;
          step(x);
        }
        for (unsigned i = 0; i < nslots(); ++i)
          end(i, false);
        if (writing) {
          MDBX_txn *t = nullptr;
          rc = mdbx_txn_begin(pr.env, nullptr, MDBX_TXN_TRY, &t);
          if (rc != MDBX_BUSY)
            c.fail("while the parent process is writing, a write transaction of the child process: %s", rcname(rc));
        }
      }
      rc = mdbx_env_close_ex(pr.env, false);
      w.tr("child: close -> %s", rcname(rc));
      if (rc && rc != MDBX_BUSY && st.a % 8 != 0)
        c.fail("mdbx_env_close() in a forked child: %s", rcname(rc));
    });
    w.tr("back in the parent");
    if (!writing)
      for (unsigned i = 0; i < nslots(); ++i)
        if (slot[i].live && !slot[i].parked)
          verify(i, false);
  }

  void run() {
    const bool first = w.first_of[proc] == id;
    if (first) {
      if (w.late[proc])
        sched::wait_until(
            [&] {
              for (unsigned p = 0; p < w.first_of.size(); ++p)
                if (sched::killed(p))
                  return true;
              for (unsigned a = 0; a < w.steps.size(); ++a)
                if (!w.late[w.proc_of[a]] && !sched::finished(a))
                  return false;
              return true;
            },
            "waiting for a death");
      open_env();
    } else
      sched::wait_until([&] { return s.env_ready[proc]; }, "waiting for the environment");
    for (auto &st : w.steps[id])
      step(st);
    for (unsigned j = 0; j < nslots(); ++j) {
      if (slot[j].live && touch(j))
        verify(j, false);
      end(j, false);
    }
    w.tr("finished");
    if (first && w.p.rewrite_after && w.late[proc] && (id & 1) == (w.steps.size() & 1)) {
      // everybody else is done or dead
      sched::wait_until(
          [&] {
            for (unsigned a = 0; a < w.steps.size(); ++a)
              if (a != id && !sched::finished(a) && !s.waiting[a])
                return false;
            return true;
          },
          "waiting for everybody");
      MDBX_txn *t;
      int rc = mdbx_txn_begin(pr.env, nullptr, MDBX_TXN_RDONLY, &t);
      if (rc)
        c.fail("a read transaction of the last process: %s", rcname(rc));
      int m = w.mark(t, pr.a, rc);
      mdbx_txn_abort(t);
      s.waiting[id] = true;
      reuse_check(c, pr.env, 0, w.live_pages(m), w.ps, w.p.tight, "in the last process");
    }
    s.waiting[id] = true;
    if (first) {
      sched::wait_until(
          [&] {
            for (unsigned a = id + 1; a < id + w.nthreads[proc]; ++a)
              if (!sched::finished(a))
                return false;
            return true;
          },
          "waiting for the other threads");
      close_env();
    }
  }
};

static int hsr(const MDBX_env *env, const MDBX_txn *txn, mdbx_pid_t pid, mdbx_tid_t tid, uint64_t laggard, unsigned gap,
               size_t space, int retry) noexcept {
  W->s->hsr_calls++;
  W->c.label("hsr calls");
  W->tr("hsr(laggard %llu, gap %u, space %zu, retry %d)", (unsigned long long)laggard, gap, space, retry);
  return -1;
}

// ------------------------------------------------------------- generation
static std::vector<Op> gen_ops(Ctx &c, const World &w) {
  std::vector<Op> v;
  unsigned n = c.weighted({2, 5, 3, 1}) * 3 + c.below(4), depth = 0;
  const bool nest = !(w.cfg.flags & MDBX_WRITEMAP) && c.chance(1, 5);
  for (unsigned i = 0; i < n && v.size() < MAXOPS - 2; ++i) {
    Op o{};
    static const uint8_t K[] = {O_PUT, O_DEL, O_DPUT, O_DDEL, O_DDELV, O_BULKPUT, O_BULKDEL, O_BIG, O_CLEAR, O_DCLEAR};
    o.k = K[c.weighted({8, 4, 5, 2, 2, 4, 3, 3, 1, 1})];
    o.key = c.below(w.p.nkeys);
    o.seed = c.seed32();
    o.n = c.below(o.k == O_DPUT ? 40 : w.p.nkeys);
    v.push_back(o);
    if (nest && c.chance(1, 4)) {
      Op x{};
      x.k = depth ? (c.flip() ? O_JOIN : O_DROPNEST) : O_NEST;
      depth += x.k == O_NEST ? 1 : -1;
      v.push_back(x);
    }
  }
  return v;
}
static Step gen_step(Ctx &c, const World &w, bool sub = false) {
  Step s;
  std::vector<unsigned> ww(w.p.w, w.p.w + S_NKINDS);
  if (sub)
    ww[S_FORK] = 0;
  s.k = c.weighted(ww);
  s.slot = c.below(3);
  s.slot2 = c.below(3);
  s.a = c.below(1000), s.b = c.below(1000);
  if (s.k == S_WRITE || s.k == S_AMEND) {
    s.a = c.weighted({8, 2, 2});
    s.b = (c.chance(1, 6) ? 1 : 0) | (c.chance(1, 4) ? 2 : 0) | (c.chance(1, 5) ? 4 : 0) | c.below(6) << 4;
    unsigned n = 1 + c.weighted({8, 2, 1});
    for (unsigned i = 0; i < n; ++i)
      s.segs.push_back(gen_ops(c, w));
  }
  if (s.k == S_FORK || (s.k == S_WRITE && w.p.w[S_FORK] && !sub && c.chance(1, 12)))
    for (unsigned i = 0, n = 1 + c.below(4); i < n; ++i)
      s.sub.push_back(gen_step(c, w, true));
  return s;
}

static void show_step(Ctx &c, unsigned actor, const Step &s) {
  if (!c.tracing)
    return;
  Bytes o;
  for (auto &g : s.segs) {
    o += " {";
    for (auto &x : g) {
      char b[60];
      static const char *N[] = {"put", "del", "dput", "ddel", "ddelv", "bulkput", "bulkdel", "big", "clear", "dclear", "nest", "join", "dropnest"};
      snprintf(b, sizeof b, "%s(%u,%u,%u) ", N[x.k], x.key, x.n, x.seed);
      o += b;
    }
    o += "}";
  }
  for (auto &x : s.sub)
    show_step(c, actor + 100, x);
  c.trace("plan: actor %u: %s slot %u,%u a=%u b=%u%s", actor, stepname(s.k), s.slot, s.slot2, s.a, s.b, o.substr(0, 600).c_str());
}

static Shm *shm;
static unsigned nprocs;
static bool risk;

void run_profile(Ctx &c, const Profile &p) {
  World w(c);
  W = &w;
  w.p = p;
  CfgReq rq;
  rq.dp_limit = p.dp;
  rq.upper = p.tight ? 1 << 20 : 64 << 20;
  w.cfg = gen_cfg(c, rq);
  EnvCfg &g = w.cfg;
  g.flags &= ~MDBX_EXCLUSIVE;
  if (g.ps > 8192)
    g.ps = 4096;
  if (p.sticky >= 0)
    g.flags = p.sticky ? g.flags & ~MDBX_NOSTICKYTHREADS : g.flags | MDBX_NOSTICKYTHREADS;
  if (p.tight) {
    g.lower = -1;
    g.upper = (intptr_t)g.ps * (120 + c.below(200));
    g.upper = std::max<intptr_t>(g.upper, 65536);
    g.growth = std::max<intptr_t>(g.ps * 8, 4096), g.shrink = c.flip() ? 0 : g.growth * 2;
  } else if (c.flip())
    g.lower = std::max<intptr_t>(16384, 16 * g.ps), g.growth = std::max<intptr_t>(4096, g.ps * c.one({1, 4, 16, 64})), g.shrink = g.growth * c.one({1, 2});
  w.sticky = !(g.flags & MDBX_NOSTICKYTHREADS);
  w.ps = g.ps;
  w.path = c.dir + "/db";
  w.kills = p.kill_num != 0;
  g.max_readers = p.max_readers;
  if (p.rewrite_after) // a small limit lets the database grow instead of looking for runs of pages
    g.opts.erase(std::remove_if(g.opts.begin(), g.opts.end(), [](auto &o) { return o.first == MDBX_opt_rp_augment_limit; }), g.opts.end());

  const bool share = p.shared_control && c.chance(1, 16);
  if (share) {
    memset(w.p.w, 0, sizeof w.p.w);
    w.p.w[S_WRITE] = 4, w.p.w[S_SYNC] = 3, w.p.w[S_GEO] = 1;
  }
  sched::Sched S(c);
  w.s = (Shm *)S.shared(sizeof(Shm));
  Shm &s = *w.s;

  // processes and threads
  unsigned np = c.range(p.minproc, p.maxproc), id = 0;
  for (unsigned i = 0; i < np; ++i) {
    unsigned nt = 1 + c.weighted({6, 3, 1});
    nt = std::min(nt, p.maxthreads);
    if (np == 1 && nt < 2)
      nt = 2;
    w.nthreads.push_back(nt);
    w.first_of.push_back(id);
    w.late.push_back(false);
    for (unsigned j = 0; j < nt && id < sched::MAXACT - p.latecomers - (np - 1 - i); ++j, ++id)
      w.proc_of.push_back(i);
    w.nthreads[i] = id - w.first_of[i];
  }
  for (unsigned i = 0; i < p.latecomers; ++i) {
    w.nthreads.push_back(1), w.first_of.push_back(id), w.late.push_back(true), w.proc_of.push_back(np + i), ++id;
  }
  w.steps.resize(id);
  // the initial contents
  std::vector<Op> init = gen_ops(c, w);
  {
    Op o{};
    o.k = O_BULKPUT, o.key = 0, o.n = c.below(p.nkeys), o.seed = c.seed32();
    init.insert(init.begin(), o);
  }
  const unsigned nslice = c.weighted({1, 4, 4, 2}) * 24 + c.below(24);
  std::vector<sched::Slice> slices;
  unsigned kills_left = p.kill_num ? np - (c.flip() ? 1 : 0) : 0;
  for (unsigned i = 0; i < nslice; ++i) {
    sched::Slice x{};
    x.actor = c.below(id);
    unsigned lg = p.small_budget && c.chance(p.small_budget, 10) ? c.below(6) : c.below(17);
    x.budget = (1u << lg) + c.below(1u << lg);
    if (p.kill_num && kills_left && c.chance(p.kill_num, p.kill_den) && !w.late[w.proc_of[x.actor]])
      x.kill = 1, kills_left--;
    slices.push_back(x);
  }
  const unsigned total = std::min<unsigned>(id * 2 + c.skewed(p.maxsteps * id), 60);
  c.plan_ops(total);
  unsigned k = 0;
  while (c.next_op()) {
    unsigned a = c.below(id);
    w.steps[a].push_back(gen_step(c, w));
    show_step(c, a, w.steps[a].back());
    ++k;
  }
  TR(c, "%s; %u processes, %u actors, %zu slices, sticky %d", g.describe().c_str(), np, id, slices.size(), w.sticky);
  if (c.tracing)
    for (auto &x : slices)
      if (x.kill)
        c.trace("slice: actor %u dies after %u points", x.actor, x.budget);

  {
    Db db(c);
    int rc = db.Env::open(c, w.path, g);
    if (rc)
      c.fail("creating the database: %s", rcname(rc));
    db.begin();
    MDBX_dbi a, d;
    db.must(mdbx_dbi_open(db.txn(), "a", MDBX_CREATE, &a), "dbi_open");
    db.must(mdbx_dbi_open(db.txn(), "d", (MDBX_db_flags_t)(MDBX_CREATE | MDBX_DUPSORT), &d), "dbi_open");
    MDBX_dbi z;
    db.must(mdbx_dbi_open(db.txn(), "z", MDBX_CREATE, &z), "dbi_open");
    db.commit();
    db.begin();
    Rec &q = s.rec[0];
    s.nrec = 1;
    q.pred = -1, q.actor = -1, q.nops = std::min<size_t>(init.size(), MAXOPS);
    for (int i = 0; i < q.nops; ++i)
      q.ops[i] = init[i];
    std::vector<MDBX_txn *> nest;
    rc = apply_real(db.txn(), a, d, q.ops, q.nops, w.ps, nest);
    int zero = 0;
    if (!rc) {
      MDBX_val kk = V(MARK), vv{&zero, 4};
      rc = mdbx_put(db.txn(), a, &kk, &vv, MDBX_UPSERT);
    }
    if (rc == MDBX_TXN_FULL || rc == MDBX_MAP_FULL) {
      if (nest.size() > 1)
        mdbx_txn_abort(nest[1]);
      throw vf::Discard();
    }
    if (rc)
      c.fail("initial contents: %s", rcname(rc));
    q.id = mdbx_txn_id(db.txn());
    rc = mdbx_txn_commit(db.txn());
    db.tx.clear();
    if (rc == MDBX_TXN_FULL || rc == MDBX_MAP_FULL)
      throw vf::Discard();
    if (rc)
      c.fail("commit of the initial contents: %s", rcname(rc));
    q.state = R_DONE;
    db.close();
  }

  std::vector<Actor::Proc> procs(w.nthreads.size());
  for (unsigned pi = 0; pi < w.nthreads.size(); ++pi) {
    std::vector<std::function<void()>> fns;
    for (unsigned j = 0; j < w.nthreads[pi]; ++j) {
      unsigned a = w.first_of[pi] + j;
      fns.push_back([&w, &procs, a, pi] {
        Actor *x = new Actor(w, a, procs[pi]);
        x->run();
      });
    }
    S.process(fns);
  }
  // Two processes waiting for a third one, which dies while it initialises or destroys the lock file:
  // see the known finding opener-died-two-waiters.
  risk = p.rewrite_after && c.chance(1, 32);
  shm = &s, nprocs = np + p.latecomers;
  sched::may_die = [](unsigned victim) {
    if (!shm->opening[victim] && !shm->inclose[victim])
      return true;
    unsigned n = 0;
    for (unsigned i = 0; i < nprocs; ++i)
      n += i != victim && (shm->opening[i] || !shm->env_ready[i]);
    if (n < 2)
      return true;
    shm->risk_hit |= risk;
    return risk;
  };
  S.on_death = [&](unsigned pi) {
    c.label("kills");
    TR(c, "--- process %u killed", pi);
  };
  sched::Result res;
  w.shared_control = share;
  try {
    S.run(slices, res);
  } catch (const vf::Failure &f) {
    if (s.risk_hit)
      c.fail_sig("opener-died-two-waiters", "a process died while opening or closing and two others were waiting to open: %s", f.msg.c_str());
    if (s.shared_hit)
      c.fail_sig("nosticky-shared-writer", "a control call overlapped a write transaction of another thread of the process: %s", f.msg.c_str());
    throw;
  }
  if (s.shared_hit) {
    c.label("control call during a write transaction of another thread");
    W = nullptr;
    return;
  }
  c.label("points", res.points);
  c.label("switches", res.switches);
  c.label("preemptions", res.preempts);

  // afterwards
  int done = 0;
  for (int i = 1; i < s.nrec; ++i)
    done += s.rec[i].state == R_DONE;
  EnvCfg g2 = g;
  Db db(c);
  int rc = db.Env::open(c, w.path, g2, 0, false);
  if (rc)
    c.fail("opening the database afterwards: %s", rcname(rc));
  MDBX_txn *t;
  db.must(mdbx_txn_begin(db.env, nullptr, MDBX_TXN_RDONLY, &t), "read transaction afterwards");
  MDBX_dbi a, d;
  db.must(mdbx_dbi_open(t, "a", MDBX_DB_DEFAULTS, &a), "dbi_open afterwards");
  db.must(mdbx_dbi_open(t, "d", MDBX_DUPSORT, &d), "dbi_open afterwards");
  uint64_t T = mdbx_txn_id(t);
  int last = w.mark(t, a, rc);
  if (rc)
    c.fail("the marker afterwards: %s", rcname(rc));
  TR(c, "afterwards: snapshot %llu, record %d", (unsigned long long)T, last);
  w.check_prefix(last, T, ~0ull, "afterwards");
  if (T < s.maxT)
    c.fail("afterwards the database is at snapshot %llu, %llu was seen before", (unsigned long long)T, (unsigned long long)s.maxT);
  {
    const Model m = w.model(last);
    db.check_table(t, a, m.ro("a"), "afterwards");
    db.check_table(t, d, m.ro("d"), "afterwards", true);
  }
  db.must(mdbx_txn_commit(t), "end of the read transaction");
  db.env_chk("afterwards");
  if (p.rewrite_after) {
    reuse_check(c, db.env, 0, w.live_pages(last), w.ps, p.tight, "afterwards");
    db.env_chk("after rewriting");
  }
  db.close();
  if (p.kill_num ? res.kills && done >= 1 : done >= 2 && res.preempts >= 3)
    c.nontrivial();
  W = nullptr;
}
} // namespace mp
