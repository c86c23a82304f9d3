// Hot copies: every copy is a complete valid database equal to one committed snapshot.
#include "hist.hpp"
#include "io.hpp"
#include "parse.hpp"
#include <fcntl.h>
#include <mutex>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>
using namespace kit;
const vf::Config vf::config = {
    "C17",
    "a case is one history of updates, table life cycles, readers and 2..10 copies: of the environment, of a pinned reader's older snapshot or of a clean write transaction; "
    "to a path (absent or existing, overwriting or not), a file or a pipe; plain or compacted, with every combination of the flags; other threads commit further transactions at generated "
    "writes of the copying, and writes of the destination may fail or be short. Every copy is read by the independent parser, compared with the model of the snapshot, opened, checked by the "
    "library and committed to; non-trivial: a copy was made with a commit in its midst or of a snapshot that is not the last one",
    12000, 200000, 20, 20, 60};
namespace {
struct S : hist::H, io::Hook {
  using H::H;
  unsigned hot = 0;
  void configure(EnvCfg &g) override {
    H::configure(g);
    if (g.ps >= 16384) g.upper = 512u << 20;
    if (g.flags & MDBX_NOSTICKYTHREADS) max_readers = 3;
    w = {46, 8, 3, 14, 3, 1, 1, 3, 1, 0, 1, 0, 1, 6, 0, 8};
    max_ops = 60, thorough_ops = 140, max_keys = 300, thorough_keys = 700;
  }
  void boundary(const char *where) override {
    if (c.chance(1, 10)) check_committed(where);
  }
  void inside(const char *where) override {
    if (c.chance(1, 8)) check_model(db.txn(), db.cur(), where);
  }
  // ---- events of the copying
  std::mutex mx;
  struct stat src{};
  unsigned events = 0;
  std::set<unsigned> commits_at;
  unsigned fail_at = 0, short_at = 0, commits = 0;
  int fail_errno = 0;
  bool failed = false;
  std::exception_ptr trouble;
  std::vector<Model> states;
  bool armed = false;
  int before(io::Call &k) override {
    if (!armed) return 0;
    switch (k.op) {
    case io::WRITE: case io::PWRITE: case io::COPYRANGE: case io::SENDFILE: case io::FTRUNCATE: case io::FDATASYNC: case io::FSYNC: break;
    default: return 0;
    }
    struct stat s;
    if (fstat(k.fd, &s) || (s.st_ino == src.st_ino && s.st_dev == src.st_dev)) return 0;
    if (!S_ISFIFO(s.st_mode) && s.st_ino != dest_ino && Bytes(link_of(k.fd)).find(c.dir + "/copy") == Bytes::npos) return 0;
    std::lock_guard<std::mutex> g(mx);
    if (++events == fail_at) {
      failed = true;
      return fail_errno;
    }
    if (events == short_at && (k.op == io::WRITE || k.op == io::COPYRANGE || k.op == io::SENDFILE) && k.len > 1) k.len = 1 + k.len / 3;
    if (commits_at.count(events) && !trouble) {
      std::thread t([this] {
        try {
          more();
        } catch (...) {
          trouble = std::current_exception();
        }
      });
      t.join();
    }
    return 0;
  }
  ino_t dest_ino = 0;
  static Bytes link_of(int fd) {
    char b[600], p[40];
    snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(p, b, sizeof b);
    return n > 0 ? Bytes(b, n) : Bytes();
  }
  void more() { // in a thread of its own, while the copying waits
    for (unsigned i = 0, n = 1 + c.below(3); i < n; ++i) {
      db.begin();
      bool ok = true;
      for (unsigned k = 0, m = 1 + c.below(3); ok && k < m; ++k) ok = data_op();
      if (ok) {
        db.commit();
        ++commits;
        states.push_back(db.st[0]);
      } else
        while (!db.tx.empty()) db.abort();
    }
  }
  void verify(const Bytes &file, const std::vector<Model> &allowed, const char *what, bool strict_size) {
    (void)strict_size;
    parse::File f = parse::read(read_file(file));
    if (!f.problems.empty()) c.fail("%s: %s (%zu problems)", what, f.first().c_str(), f.problems.size());
    Bytes d;
    const Model *m = nullptr;
    for (auto &x : allowed) {
      d = parse::compare(f, x, db.tabs, true);
      if (d.empty()) {
        m = &x;
        break;
      }
    }
    if (!m) c.fail("%s: the contents differ from the snapshot's: %s", what, d.c_str());
    // open, check and change it
    Env e;
    EnvCfg g;
    g.flags = MDBX_NOSUBDIR | (c.chance(1, 4) ? MDBX_WRITEMAP : 0) | MDBX_UTTERLY_NOSYNC;
    g.ps = db.cfg.ps, g.max_db = 12;
    int rc = e.open(c, file, g, 0, false);
    if (rc) c.fail("%s: opening of the copy returned %s", what, rcname(rc));
    ChkResult r = run_chk(e.env);
    if (r.rc || r.problems) c.fail("%s: the checker says %s, %zu problems: %s", what, rcname(r.rc), r.problems, r.text.c_str());
    MDBX_txn *t;
    db.must(mdbx_txn_begin(e.env, nullptr, MDBX_TXN_RDONLY, &t), "begin of a read transaction in the copy");
    MDBX_canary k{};
    db.must(mdbx_canary_get(t, &k), "mdbx_canary_get in the copy");
    if (k.x != m->canary.x || k.y != m->canary.y || k.z != m->canary.z) c.fail("%s: the markers differ", what);
    db.must(mdbx_txn_abort(t), "abort in the copy");
    if (c.chance(1, 3)) {
      db.must(mdbx_txn_begin(e.env, nullptr, MDBX_TXN_READWRITE, &t), "begin in the copy");
      MDBX_dbi x = 0;
      rc = mdbx_dbi_open(t, "x9", MDBX_CREATE, &x);
      if (rc == MDBX_SUCCESS) {
        for (unsigned i = 0; i < 60 && rc == MDBX_SUCCESS; ++i) {
          char kb[8], vb[100];
          memset(vb, 'v', sizeof vb);
          snprintf(kb, sizeof kb, "%06u", i);
          MDBX_val kk{kb, 6}, vv{vb, sizeof vb};
          rc = mdbx_put(t, x, &kk, &vv, MDBX_UPSERT);
        }
        if (rc && rc != MDBX_MAP_FULL) c.fail("%s: mdbx_put in the copy returned %s", what, rcname(rc));
      } else if (rc != MDBX_INCOMPATIBLE && rc != MDBX_BAD_VALSIZE && rc != MDBX_MAP_FULL)
        c.fail("%s: mdbx_dbi_open in the copy returned %s", what, rcname(rc));
      rc == MDBX_SUCCESS ? (void)db.must(mdbx_txn_commit(t), "commit in the copy") : (void)mdbx_txn_abort(t);
      r = run_chk(e.env);
      if (r.rc || r.problems) c.fail("%s: after a commit to the copy the checker says %s, %zu problems: %s", what, rcname(r.rc), r.problems, r.text.c_str());
      c.label("commit-to-copy");
    }
    if ((rc = e.close())) c.fail("%s: closing of the copy returned %s", what, rcname(rc));
  }
  bool extra(unsigned) override {
    if (db.tx.size() != 1 || !c.chance(1, 8)) {
      while (db.tx.size() > 1) c.flip() ? db.commit() : db.abort();
      if (!db.tx.empty()) {
        db.commit();
        published();
      }
    }
    if (!db.tx.empty() && !(db.cfg.flags & MDBX_NOSTICKYTHREADS)) {
      int rc = mdbx_txn_copy2pathname(db.txn(), (c.dir + "/copy-dirty").c_str(), MDBX_CP_DEFAULTS);
      if (rc != MDBX_SUCCESS && rc != MDBX_BAD_TXN) c.fail("mdbx_txn_copy2pathname of a write transaction returned %s", rcname(rc));
      if (rc == MDBX_SUCCESS) {
        same(db.st[0], db.st[1], "a transaction with changes was copied");
        verify(c.dir + "/copy-dirty", {db.st[0]}, "copy of a clean write transaction", false);
        c.label("write-transaction");
      } else if (!access((c.dir + "/copy-dirty").c_str(), F_OK))
        c.fail("a refused copying left a file");
      unlink((c.dir + "/copy-dirty").c_str());
      return true;
    }
    // ---- what
    MDBX_txn *t = nullptr;
    size_t ri = ~(size_t)0;
    bool wr = false;
    states.assign(1, db.st[0]);
    const int what = c.weighted({5, 4, 2, 1});
    if (what == 1 && !readers.empty()) {
      ri = c.below(readers.size());
      t = readers[ri].t;
      states.assign(1, readers[ri].m);
    } else if (what == 2) {
      db.must(mdbx_txn_begin(db.env, nullptr, MDBX_TXN_RDONLY, &t), "begin of a read transaction");
    } else if (what == 3 && db.tx.empty()) {
      db.must(mdbx_txn_begin(db.env, nullptr, MDBX_TXN_READWRITE, &t), "begin of a write transaction");
      wr = true;
    }
    unsigned flags = 0;
    if (c.flip()) flags |= MDBX_CP_COMPACT;
    if (c.chance(1, 3)) flags |= MDBX_CP_FORCE_DYNAMIC_SIZE;
    if (c.flip()) flags |= MDBX_CP_DONT_FLUSH;
    if (c.chance(1, 4)) flags |= MDBX_CP_THROTTLE_MVCC;
    if (t && c.chance(1, 3)) flags |= MDBX_CP_DISPOSE_TXN;
    if (c.chance(1, t ? 4 : 12)) flags |= MDBX_CP_RENEW_TXN;
    const bool throttle = flags & MDBX_CP_THROTTLE_MVCC, dispose = flags & MDBX_CP_DISPOSE_TXN;
    // ---- where
    const int where = c.weighted({4, 2, 3}); // path, file, pipe
    const Bytes dest = c.dir + "/copy";
    bool exists = where == 0 && c.chance(1, 4);
    if (c.chance(1, 3) && where == 0) flags |= MDBX_CP_OVERWRITE;
    Bytes old;
    if (exists) {
      old.assign(c.below(200000), 'o');
      if (c.flip()) old.replace(0, std::min<size_t>(old.size(), 2000), read_file(dxb(db.cfg, db.path)), 0, std::min<size_t>(old.size(), 2000));
      write_file(dest, old);
    }
    // ---- in the midst
    events = commits = 0, fail_at = short_at = 0, failed = false, trouble = nullptr;
    commits_at.clear();
    const bool may_commit = db.tx.empty() && !wr;
    if (may_commit)
      for (unsigned i = 0, n = c.one<unsigned>({0, 1, 1, 2, 4}); i < n; ++i) commits_at.insert(1 + c.below(7));
    if (c.chance(1, 5)) fail_at = 1 + c.below(6), fail_errno = c.one<int>({ENOSPC, EIO, EDQUOT, EFBIG});
    if (c.chance(1, 3)) short_at = 1 + c.below(5);
    bool exdev = where != 2 && fail_at == 0 && !c.asan /* the library poisons free pages for itself */ && c.chance(1, 4);
    if (exdev) fail_at = 2, fail_errno = EXDEV;
    stat(dxb(db.cfg, db.path).c_str(), &src);
    int fd = -1, p[2] = {-1, -1};
    std::thread drain;
    if (where == 1) {
      fd = ::open(dest.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0600);
    } else if (where == 2) {
      if (pipe2(p, O_CLOEXEC)) c.inconclusive("pipe");
      fd = p[1];
      drain = std::thread([&] {
        io::Quiet q;
        int out = ::open(dest.c_str(), O_CREAT | O_RDWR | O_TRUNC | O_CLOEXEC, 0600);
        char b[65536];
        ssize_t n;
        while ((n = read(p[0], b, sizeof b)) > 0)
          if (write(out, b, n) != n) break;
        close(out);
      });
    }
    const Bytes before_src = db.tx.empty() && !wr ? Bytes() : Bytes();
    const Model at_start = states[0];
    io::hook = this, armed = true;
    int rc;
    if (t)
      rc = where == 0 ? mdbx_txn_copy2pathname(t, dest.c_str(), (MDBX_copy_flags_t)flags) : mdbx_txn_copy2fd(t, fd, (MDBX_copy_flags_t)flags);
    else
      rc = where == 0 ? mdbx_env_copy(db.env, dest.c_str(), (MDBX_copy_flags_t)flags) : mdbx_env_copy2fd(db.env, fd, (MDBX_copy_flags_t)flags);
    armed = false, io::hook = nullptr;
    if (where == 2) {
      close(p[1]);
      drain.join();
      close(p[0]);
    } else if (where == 1)
      close(fd);
    static const char *const wn[] = {"a path", "a file", "a pipe"};
    char name[200];
    snprintf(name, sizeof name, "copy of %s to %s, flags %x", t ? wr ? "a write transaction" : ri != ~(size_t)0 ? "a pinned reader" : "a read transaction" : "the environment", wn[where], flags);
    TR(c, "%s%s, %zu commits planned, %u made, %u events, fail at %u (%d) short at %u -> %s", name, exists ? ", existing" : "", commits_at.size(), commits, events, fail_at, fail_errno, short_at, rcname(rc));
    if (trouble) std::rethrow_exception(trouble);
    // ---- outcome
    bool ok = rc == MDBX_SUCCESS;
    const bool exist_refused = exists && !(flags & MDBX_CP_OVERWRITE);
    if ((!t && (flags & MDBX_CP_RENEW_TXN)) || (wr && (flags & (MDBX_CP_RENEW_TXN | MDBX_CP_THROTTLE_MVCC)))) {
      if (rc != MDBX_EINVAL && !(exist_refused && rc == EEXIST)) c.fail("%s: returned %s", name, rcname(rc));
      c.label("flags-refused");
      ok = false;
    } else if (exist_refused) {
      if (rc != EEXIST) c.fail("%s: with an existing file returned %s", name, rcname(rc));
    } else if (failed && !exdev) {
      if (ok) c.fail("%s: success though call %u of the destination failed with %d", name, fail_at, fail_errno);
      c.label("failed");
    } else if (!ok) {
      if (rc == MDBX_OUSTED && throttle && commits)
        c.label("ousted");
      else if (rc == EXDEV && exdev) // the failed call was another one
        c.label("failed");
      else
        c.fail("%s: returned %s", name, rcname(rc));
    }
    if (where == 0) {
      const bool there = !access(dest.c_str(), F_OK);
      if (exist_refused) {
        if (read_file(dest) != old) c.fail("%s: a refused copying changed the existing file", name);
        c.label("existing");
      } else if (!ok && there && !exists)
        c.fail("%s: a failed copying left its file", name);
      else if (ok && !there)
        c.fail("%s: there is no copy", name);
    }
    if (ok) {
      if (!access((dest + "-lck").c_str(), F_OK)) c.fail("%s: a lock file was created", name);
      verify(dest, {at_start}, name, where != 2);
      c.label(where == 0 ? "path" : where == 1 ? "file" : "pipe");
      c.label(flags & MDBX_CP_COMPACT ? "compact" : "plain");
      if (commits || ri != ~(size_t)0) ++hot;
      if (commits) c.label("commits-in-the-midst");
      if (exdev && failed) c.label("fallback");
    }
    for (auto s : {dest, dest + "-lck"}) unlink(s.c_str());
    // ---- the transaction
    if (t) {
      if (dispose) {
        if (ri != ~(size_t)0) readers.erase(readers.begin() + ri);
      } else if (wr) {
        db.must(mdbx_txn_abort(t), "abort of the copied write transaction");
      } else {
        bool lost = false;
        if (throttle) {
          const int was = rc;
          rc = mdbx_txn_unpark(t, false);
          if (commits && (rc == MDBX_OUSTED || was == MDBX_OUSTED || (rc == MDBX_BAD_TXN && (mdbx_txn_flags(t) & (MDBX_TXN_FINISHED | MDBX_TXN_OUSTED)))))
            lost = true;
          else if (rc != MDBX_SUCCESS && rc != MDBX_BAD_TXN /* not parked */)
            c.fail("%s: mdbx_txn_unpark afterwards returned %s", name, rcname(rc));
        }
        if (!lost) {
          check_all_of(t, at_start, "in the copied read transaction afterwards");
          if (ri == ~(size_t)0) db.must(mdbx_txn_abort(t), "abort of the copied read transaction");
        } else {
          c.label("lost");
          db.must(mdbx_txn_abort(t), "abort of an ousted transaction");
          if (ri != ~(size_t)0) readers.erase(readers.begin() + ri);
        }
      }
    }
    for (auto &r : readers) check_reader(r, "in a pinned reader after a copying");
    if (db.tx.empty() && c.chance(1, 3)) check_committed("after a copying");
    return true;
  }
  void check_all_of(MDBX_txn *t, const Model &m, const char *where) { db.check_all(t, m, where); }
  void finish() override {
    if (!c.chance(1, 40)) return;
    const bool live = c.flip() && !(db.cfg.flags & MDBX_EXCLUSIVE);
    if (!live) db.must(db.close(), "close");
    const char *tool = getenv("VF_TOOL_COPY");
    if (!tool) c.fail("no tool");
    Bytes log = c.dir + "/tool.log", dest = c.dir + "/copy";
    const bool to_stdout = c.flip();
    Bytes cmd = Bytes("'") + tool + "' -q " + c.one<const char *>({"", "-c", "-d", "-c -d", "-p", "-f"}) + " '" + db.path + "'" + (to_stdout ? " >'" + dest + "' 2>'" + log + "'" : " '" + dest + "' >'" + log + "' 2>&1");
    int st = system(cmd.c_str());
    TR(c, "%s: %x %s", cmd.c_str(), st, read_file(log).c_str());
    c.label("tool");
    if (!WIFEXITED(st) || WEXITSTATUS(st)) c.fail("mdbx_copy exited with status %x: %.300s", st, read_file(log).c_str());
    verify(dest, {db.st[0]}, "copy by the tool", false);
    if (!live) {
      db.must(db.Env::open(c, db.path, db.cfg), "reopen after mdbx_copy");
      db.reopen_tables();
      check_committed("after mdbx_copy");
    }
  }
};
} // namespace
void vf::run_case(Ctx &c) {
  S s(c);
  try {
    s.run();
  } catch (...) {
    io::hook = nullptr;
    throw;
  }
  io::hook = nullptr;
  if (s.hot) c.nontrivial();
}
