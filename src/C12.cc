// Failed system calls and allocations: an error, never a crash, never a half-applied transaction.
#include "hist.hpp"
#include "io.hpp"
#include "parse.hpp"
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace kit;
const vf::Config vf::config = {
    "C12",
    "a case is one history of updates, table life cycles, nested transactions, boundaries, readers, geometry changes, forced syncs, defragmentations and reopenings, where during 1..20 of the operations "
    "the k-th system call or allocation of a generated class (writes, syncs, file sizes and mappings, memory, files and locks) fails with a generated error - once, several times or until the operation ends - or is short; "
    "after a failed operation everything is aborted, the file is read by the independent parser and compared with the states before and (if the operation publishes) after it, and the same or the reopened "
    "environment is used further; non-trivial: at least two operations failed by an injected fault",
    26000, 500000, 20, 20, 90};
namespace {
struct Fault {
  Bytes msg;
};
struct S : hist::H, io::Hook {
  using H::H;
  unsigned handled = 0, tolerated = 0;
  // ---- the injected fault
  bool armed = false;
  int cls = 0, eno = 0;
  unsigned at = 0, times = 0, seen = 0, fired = 0;
  bool is_short = false, sync_failed = false;
  io::Op last = io::NOPS;
  pthread_t me = pthread_self();
  static int class_of(io::Op op) {
    switch (op) {
    case io::PWRITE: case io::PWRITEV: case io::WRITE: case io::WRITEV: case io::COPYRANGE: return 0;
    case io::FDATASYNC: case io::FSYNC: case io::MSYNC: return 1;
    case io::FTRUNCATE: case io::FALLOCATE: case io::MMAP: case io::MREMAP: case io::MADVISE: return 2;
    case io::MALLOC: case io::CALLOC: case io::REALLOC: case io::ALIGNED: return 3;
    case io::OPEN: case io::CLOSE: case io::FCNTL: case io::PREAD: return 4;
    default: return -1;
    }
  }
  int before(io::Call &k) override {
    if (!armed) return 0;
    const int kl = class_of(k.op);
    if (kl < 0 || (cls != 5 ? kl != cls : kl == 3)) return 0;
    if (seen++ < at || fired >= times) return 0;
    ++fired;
    last = k.op;
    if (is_short && (k.op == io::PWRITE || k.op == io::PWRITEV) && k.len > 1) {
      k.len = 1 + (k.len - 1) / 2;
      return 0;
    }
    auto pick = [&](std::initializer_list<int> v) { return *(v.begin() + (unsigned)eno % v.size()); };
    switch (k.op) {
    case io::FDATASYNC: case io::FSYNC: sync_failed = true; return pick({EIO, ENOSPC, EDQUOT});
    case io::MSYNC:
      if (k.flags & MS_SYNC) sync_failed = true;
      return pick({EIO, ENOMEM, EBUSY});
    case io::FTRUNCATE: return pick({ENOSPC, EIO, EFBIG, EPERM});
    case io::FALLOCATE: return pick({ENOSPC, EIO, EFBIG});
    case io::MMAP: case io::MREMAP: return pick({ENOMEM, EAGAIN});
    case io::MADVISE: return pick({ENOMEM, EAGAIN, EINVAL, EIO});
    case io::OPEN: return pick({EMFILE, ENFILE, ENOMEM, EIO});
    case io::CLOSE: close(k.fd); return EIO;
    case io::FCNTL: return pick({ENOLCK, EIO});
    case io::PREAD: return EIO;
    case io::MALLOC: case io::CALLOC: case io::REALLOC: case io::ALIGNED: return ENOMEM;
    default: return pick({EIO, ENOSPC, EDQUOT});
    }
  }
  void arm() {
    cls = c.weighted({6, 4, 6, 6, 3, 4});
    at = c.one<unsigned>({0, 0, 0, 1, 2, 3, 5, 8}) + (c.chance(1, 6) ? c.below(60) : 0);
    times = c.one<unsigned>({1, 1, 1, 2, 3, 1000});
    eno = c.below(4);
    is_short = cls == 0 && c.chance(1, 4);
    seen = fired = 0, sync_failed = false;
    armed = true;
    c.on_fail = failing, c.on_fail_arg = this;
  }
  void disarm() { armed = false, c.on_fail = nullptr; }
  static void failing(void *arg, const char *msg) {
    S *s = (S *)arg;
    if (s->fired) throw Fault{msg};
  }
  void configure(EnvCfg &g) override {
    H::configure(g);
    if (g.flags & MDBX_NOSTICKYTHREADS) max_readers = 3;
    if (g.ps >= 16384) g.upper = 512u << 20;
    max_keys = 250, thorough_keys = 600;
    g.flags &= ~MDBX_EXCLUSIVE;
  }
  // ---- after a failed operation
  void compare_file(std::vector<Model> &cand, const char *what) {
    parse::File f = parse::read(parse::load(dxb(db.cfg, db.path)));
    if (!f.problems.empty()) c.fail("%s: %s (%zu problems)", what, f.first().c_str(), f.problems.size());
    Bytes d, first;
    for (auto &m : cand) {
      d = parse::compare(f, m, db.tabs, true);
      if (d.empty()) {
        if (&m != &cand[0]) c.label("published-though-failed");
        db.st.assign(1, m);
        return;
      }
      if (first.empty()) first = d;
    }
    c.fail("%s: the file's contents are of neither state: %s", what, first.c_str());
  }
  void drop_readers() {
    for (auto &r : readers) mdbx_txn_abort(r.t);
    readers.clear();
  }
  void recover(std::vector<Model> cand, bool gone, const char *op, const Bytes &msg) {
    const io::Op was = last;
    const unsigned n = fired;
    disarm();
    bool reflagged = false; // handles keep the flags of a failed transaction
    for (auto &t : db.st[0].t)
      if (auto b = db.st.back().t.find(t.first); b != db.st.back().t.end()) reflagged |= b->second->flags != t.second->flags;
    char what[400];
    snprintf(what, sizeof what, "after %s failed due to %u failed %s (%s)", op, n, io::name[was], msg.substr(0, 120).c_str());
    TR(c, "%s", what);
    ++handled;
    c.label((Bytes("failed-") + io::name[was]).c_str());
    c.label((Bytes("op-") + op).c_str());
    int rc = 0;
    if (db.env && !db.tx.empty() && !gone) {
      rc = mdbx_txn_abort(db.tx[0]);
      TR(c, "abort -> %s", rcname(rc));
      if (rc != MDBX_SUCCESS && rc != MDBX_BAD_TXN && rc != MDBX_PANIC && rc != MDBX_THREAD_MISMATCH) c.fail("%s: mdbx_txn_abort returned %s", what, rcname(rc));
    }
    db.tx.clear();
    db.st.resize(1);
    bool usable = db.env;
    if (usable) {
      MDBX_txn *t = nullptr;
      rc = mdbx_txn_begin(db.env, nullptr, MDBX_TXN_TRY, &t);
      TR(c, "begin -> %s", rcname(rc));
      if (rc == MDBX_BUSY) c.fail("%s: the writer lock is kept", what);
      if (rc == MDBX_SUCCESS)
        db.must(mdbx_txn_abort(t), "mdbx_txn_abort after a recovery");
      else
        usable = false, c.label("reopen-needed");
    }
    compare_file(cand, what);
    for (size_t i = 0; i < readers.size();) {
      if (!usable) break;
      check_reader(readers[i], what);
      ++i;
    }
    if (usable && !reflagged && c.chance(3, 4)) {
      check_committed(what);
      if (c.chance(1, 6)) check_writes(what);
    } else {
      drop_readers();
      if (db.env) {
        rc = db.close();
        TR(c, "close -> %s", rcname(rc));
        if (usable ? rc != MDBX_SUCCESS : (rc != MDBX_SUCCESS && rc != MDBX_PANIC)) c.fail("%s: closing returned %s", what, rcname(rc));
      }
      rc = db.Env::open(c, db.path, db.cfg);
      if (rc) c.fail("%s: reopening returned %s", what, rcname(rc));
      db.reopen_tables();
      check_committed(what);
      std::vector<Model> one{db.st[0]};
      compare_file(one, what);
      if (c.chance(1, 4)) db.env_chk(what);
      c.label("reopened");
    }
  }
  void check_writes(const char *what) { // a small commit works
    db.begin();
    MDBX_canary k{c.bits(), c.bits(), c.bits(), 0};
    db.must(mdbx_canary_put(db.txn(), &k), "mdbx_canary_put");
    MDBX_canary &mk = db.cur().canary;
    if (k.x != mk.x || k.y != mk.y || k.z != mk.z) mk = k, mk.v = mdbx_txn_id(db.txn());
    db.commit();
    std::vector<Model> one{db.st[0]};
    compare_file(one, what);
  }
  // ---- operations under faults
  template <class F> bool op(const char *name, bool publishes, bool ends, F f) {
    std::vector<Model> cand{db.st[0]};
    if (publishes && db.st.size() > 1) cand.push_back(db.st.back());
    const bool fault = c.chance(1, 4);
    fired = 0, sync_failed = false;
    if (fault) arm();
    io::hook = fault ? this : nullptr;
    try {
      bool ok = f();
      io::hook = nullptr;
      if (fault) {
        const bool hit = fired;
        disarm();
        if (hit) {
          ++tolerated, c.label((Bytes("tolerated-") + io::name[last]).c_str());
          TR(c, "tolerated %u failed %s in %s", fired, io::name[last], name);
          const bool durable = !(db.cfg.flags & MDBX_SAFE_NOSYNC) && !(top_flags & MDBX_TXN_NOSYNC);
          if (sync_failed && !is_short && publishes && durable && db.st.size() == 1 && cand.size() == 2 && db.tx.empty()) c.fail("%s returned success though %s failed", name, io::name[last]);
          if (!db.tx.empty() && (mdbx_txn_flags(db.txn()) & MDBX_TXN_ERROR)) {
            c.label("broken-though-success");
            recover({db.st[0]}, false, name, "the transaction is broken");
          }
        }
      }
      return ok;
    } catch (Fault &x) {
      io::hook = nullptr;
      recover(cand, ends, name, x.msg);
      return true;
    } catch (...) {
      io::hook = nullptr;
      disarm();
      throw;
    }
  }
  bool embark_op() {
    MDBX_txn *t = db.tx[0];
    int rc = mdbx_txn_commit_embark_read(&t, nullptr);
    TR(c, "commit_embark_read -> %s", rcname(rc));
    if (rc == MDBX_RESULT_TRUE) return true;
    if (db.full(rc)) {
      c.label("full");
      db.tx.clear(), db.st.resize(1);
      return true;
    }
    embarked = rc ? nullptr : t;
    if (rc) db.tx.clear();
    db.must(rc, "mdbx_txn_commit_embark_read");
    db.st[0] = db.st[1], db.tx.clear(), db.st.resize(1);
    return true;
  }
  MDBX_txn *embarked = nullptr;
  void walk() {
    EnvCfg g = gen_cfg(c, request());
    configure(g);
    db.open_env(g);
    db.make_tables(1 + c.below(max_tables), 0, c.thorough ? thorough_keys : max_keys, true);
    mainonly = db.tabs[0].name.empty();
    if (!(db.cfg.flags & MDBX_NOSTICKYTHREADS)) max_readers = 0;
    c.plan_ops(10 + c.skewed(c.thorough ? 200 : 90));
    while (c.next_op() && !dead) {
      if (db.tx.empty()) {
        if (c.chance(1, 6)) {
          end_readers();
          op("reopening", false, true, [&] {
            int rc = db.close();
            TR(c, "close -> %s", rcname(rc));
            if (rc && !fired) c.fail("closing returned %s", rcname(rc));
            if (rc) c.label("failed-close");
            rc = db.Env::open(c, db.path, db.cfg);
            TR(c, "open -> %s", rcname(rc));
            db.must(rc, "reopen");
            return true;
          });
          disarm();
          if (db.env) db.reopen_tables();
          if (c.chance(1, 3)) check_committed("after reopening");
        }
        top_flags = c.one<unsigned>({0, 0, 0, MDBX_TXN_NOMETASYNC, MDBX_TXN_NOSYNC});
        op("begin", false, true, [&] { return db.begin(top_flags), true; });
        if (db.tx.empty()) continue;
      }
      const bool wm = db.cfg.flags & MDBX_WRITEMAP;
      bool ok = true;
      //                           data dyn nest commit abort fcommit check embark reader geo sync defrag
      switch (c.weighted(std::initializer_list<unsigned>{44, 9, 5, 16, 3, 1, 3, 2, 3, 3, 3, 2})) {
      case 0: ok = op("an update", false, false, [&] { return data_op(); }); break;
      case 1: ok = op("a table operation", false, false, [&] { return dyn_op(); }); break;
      case 2:
        if (!wm && db.tx.size() < 5) ok = op("begin nested", false, false, [&] {
            const size_t n = db.tx.size();
            db.begin_nested();
            return db.tx.size() > n;
          });
        break;
      case 3:
        op(db.tx.size() > 1 ? "commit nested" : "commit", db.tx.size() == 1, db.tx.size() == 1, [&] { return db.commit(), true; });
        if (db.tx.empty() && c.chance(1, 8)) check_committed("after commit");
        break;
      case 4:
        op("abort", false, db.tx.size() == 1, [&] { return db.abort(), true; });
        if (db.tx.empty() && c.chance(1, 4)) check_committed("after abort");
        break;
      case 5: {
        while (db.tx.size() > 2) db.abort();
        if (db.tx.size() < 2) break;
        const bool commit_it = c.flip();
        op("an end with a nested one open", commit_it, true, [&] {
          int rc = commit_it ? mdbx_txn_commit(db.tx[0]) : mdbx_txn_abort(db.tx[0]);
          TR(c, "%s of the parent -> %s", commit_it ? "commit" : "abort", rcname(rc));
          if (commit_it && db.full(rc)) {
            db.tx.clear(), db.st.resize(1);
            return true;
          }
          db.must(rc, "end of a transaction with an open nested one");
          if (commit_it) db.st[0] = db.st.back();
          db.tx.clear(), db.st.resize(1);
          return true;
        });
        break;
      }
      case 6: {
        while (db.tx.size() > 1) db.abort();
        op("checkpoint", true, false, [&] {
          int rc = mdbx_txn_checkpoint(db.tx[0], MDBX_TXN_READWRITE, nullptr);
          TR(c, "checkpoint -> %s", rcname(rc));
          if (db.full(rc)) {
            mdbx_txn_abort(db.tx[0]);
            db.tx.clear(), db.st.resize(1);
            return true;
          }
          if (rc != MDBX_RESULT_TRUE) {
            db.must(rc, "checkpoint");
            db.st[0] = db.st[1];
          }
          return true;
        });
        break;
      }
      case 7:
        while (db.tx.size() > 1) db.abort();
        embarked = nullptr;
        op("commit_embark_read", true, true, [&] { return embark_op(); });
        if (embarked) mdbx_txn_abort(embarked);
        break;
      case 8:
        if (max_readers && readers.size() < max_readers)
          op("a reader's begin", false, false, [&] {
            Rd r;
            db.must(mdbx_txn_begin(db.env, nullptr, MDBX_TXN_RDONLY, &r.t), "begin of a reader");
            r.id = mdbx_txn_id(r.t), r.m = db.st[0];
            readers.push_back(r);
            return true;
          });
        else if (!readers.empty())
          end_reader(c.below(readers.size()));
        break;
      case 9: ok = op("set_geometry", false, false, [&] { return geometry_op(); }); break;
      case 10: {
        while (!db.tx.empty()) db.abort();
        op("env_sync", false, true, [&] {
          int rc = mdbx_env_sync_ex(db.env, true, false);
          TR(c, "sync -> %s", rcname(rc));
          if (rc != MDBX_RESULT_TRUE) db.must(rc, "mdbx_env_sync");
          if (sync_failed && !is_short && rc == MDBX_SUCCESS) {
            disarm();
            c.fail("mdbx_env_sync_ex returned success though %s failed", io::name[last]);
          }
          return true;
        });
        break;
      }
      default:
        while (!db.tx.empty()) db.commit();
        op("defrag", false, true, [&] {
          int rc = mdbx_env_defrag(db.env, 0, 0, 0, 0, -1, c.one<intptr_t>({0, 1, 5}), nullptr, nullptr, nullptr);
          TR(c, "defrag -> %s", rcname(rc));
          if (rc == MDBX_RESULT_TRUE || rc == MDBX_LAGGARD_READER || db.full(rc)) return true;
          db.must(rc, "mdbx_env_defrag");
          return true;
        });
        break;
      }
      if (!ok && !db.tx.empty()) db.abort();
      if (c.chance(1, 20) && !db.tx.empty()) check_model(db.txn(), db.cur(), "inside the transaction");
    }
    while (!db.tx.empty()) c.flip() ? db.commit() : db.abort();
    check_committed("at the end");
    end_readers();
    db.must(db.close(), "close");
    std::vector<Model> one{db.st[0]};
    compare_file(one, "after closing");
    db.must(db.Env::open(c, db.path, db.cfg), "final reopen");
    db.reopen_tables();
    check_committed("after the final reopen");
    db.env_chk("at the end");
    db.must(db.close(), "close");
  }
};
} // namespace
void vf::run_case(Ctx &c) {
  io::hook = nullptr;
  S s(c);
  try {
    s.walk();
  } catch (...) {
    io::hook = nullptr;
    c.on_fail = nullptr;
    throw;
  }
  io::hook = nullptr;
  if (s.handled > 1) c.nontrivial();
}
