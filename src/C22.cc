#include "hist.hpp"
#include "parse.hpp"
#include <sys/wait.h>
#include <unistd.h>
using namespace kit;
const vf::Config vf::config = {
    "C22",
    "a case is one generated configuration and a history of data operations with large and small values, table life cycles, nested transactions, pinned readers and explicit "
    "defragmentations with generated limits, goals and batch sizes, alone or within a write transaction, interrupted or watched by a callback that reads from old and new snapshots; after "
    "each one the contents of all tables, sequences and markers, the structure and the page accounting (independent parser and the library's checker) and the used size are compared; "
    "non-trivial: at least one defragmentation moved pages",
    9000, 150000, 20, 12, 60};
namespace {
struct S : hist::H {
  using H::H;
  unsigned moved = 0;
  void configure(EnvCfg &g) override {
    H::configure(g);
    if (g.ps >= 16384) g.upper = 1024u << 20;
    if (g.flags & MDBX_NOSTICKYTHREADS) max_readers = 3;
    w = {46, 8, 3, 14, 3, 1, 1, 3, 1, 0, 1, 0, 1, 4, 2, 8, 3};
    max_ops = 70, thorough_ops = 160, max_keys = 350, thorough_keys = 800;
  }
  void setup() override { // fragmented contents to begin with
    const unsigned n = c.below(7);
    for (unsigned i = 0; i < n; ++i) {
      db.begin();
      bool ok = true;
      for (unsigned k = 0, m = 1 + c.below(4); ok && k < m; ++k) ok = db.op_bulk(db.tabs[c.below(db.tabs.size())], 300);
      ok ? db.commit() : db.abort();
    }
  }
  parse::File inspect(const char *where, const Model &m) {
    parse::File f = parse::read(parse::load(dxb(db.cfg, db.path)));
    if (!f.problems.empty()) c.fail("%s: %s (%zu problems)", where, f.first().c_str(), f.problems.size());
    Bytes d = parse::compare(f, m, db.tabs, true);
    if (!d.empty()) c.fail("%s: file contents: %s", where, d.c_str());
    return f;
  }
  void boundary(const char *where) override {
    if (c.chance(1, 10)) check_committed(where);
  }
  void inside(const char *where) override {
    if (c.chance(1, 6)) check_model(db.txn(), db.cur(), where);
  }
  size_t used() {
    parse::File f = parse::read(parse::load(dxb(db.cfg, db.path)), parse::HEAD_RECENT, false);
    return f.meta[f.head].next;
  }
  // ---- the callback
  unsigned calls = 0, stop_at = 0;
  int stop_how = 0;
  bool own = false, look = false;
  Bytes trouble;
  static int notify(void *ctx, const MDBX_defrag_result_t *) noexcept { return ((S *)ctx)->note(); }
  int note() {
    ++calls;
    if (look && calls <= 6 && (db.cfg.flags & MDBX_NOSTICKYTHREADS)) {
      for (auto &r : readers) check_reader(r, "in a pinned reader during a defragmentation");
      if (!own) {
        MDBX_txn *t;
        db.must(mdbx_txn_begin(db.env, nullptr, MDBX_TXN_RDONLY, &t), "mdbx_txn_begin(RDONLY) during a defragmentation");
        check_model(t, db.st[0], "in a reader during a defragmentation");
        if (readers.size() < max_readers && calls == 2) {
          Rd r;
          r.t = t, r.m = db.st[0], r.id = mdbx_txn_id(t);
          readers.push_back(r);
        } else
          db.must(mdbx_txn_abort(t), "abort of a read transaction");
      }
    }
    return stop_at && calls >= stop_at ? stop_how : 0;
  }
  bool extra(unsigned op) override {
    if (op == 1) {
      if (db.tx.size() != 1) {
        if (db.tx.size() > 1) {
          int rc = mdbx_env_defrag(db.env, 0, 0, 0, 0, -1, 0, nullptr, nullptr, nullptr);
          if (rc != MDBX_BAD_TXN) c.fail("mdbx_env_defrag within a nested transaction returned %s", rcname(rc));
        }
        return true;
      }
    } else {
      while (db.tx.size() > 1) c.flip() ? db.commit() : db.abort();
      if (!db.tx.empty()) {
        db.commit();
        if (c.flip()) inspect("before a defragmentation", db.st[0]);
      }
    }
    own = op == 1;
    const size_t before = used();
    static const size_t pages[] = {0, 0, 1, 3, 10, 50, 1000};
    size_t atleast = c.one<size_t>({0, 0, 0, 1, 5, 30}), enough = pages[c.below(7)];
    size_t tl = c.one<size_t>({0, 0, 0, 1, 65}), ta = tl ? c.below(tl + 1) : c.one<size_t>({0, 0, 0, 20});
    if (enough && enough < atleast) atleast = enough;
    intptr_t backlash = c.one<intptr_t>({-1, -1, 0, 1, 10}), batch = c.one<intptr_t>({0, 0, 1, 2, 5, 20, 100, -1});
    calls = 0, stop_at = c.chance(1, 3) ? 1 + c.skewed(12) : 0, stop_how = c.flip() ? 1 : -1, look = c.flip();
    const bool cb = stop_at || look || c.chance(1, 5);
    MDBX_defrag_result_t r;
    const bool give = !c.chance(1, 8);
    const size_t pinned = readers.size();
    int rc = mdbx_env_defrag(db.env, atleast, ta, enough, tl, backlash, batch, cb ? notify : nullptr, cb ? this : nullptr, give ? &r : nullptr);
    if (!give) memset(&r, 0, sizeof r);
    TR(c, "defrag%s atleast=%zu time=%zu enough=%zu limit=%zu backlash=%zd batch=%zd stop=%u/%d -> %s, shrinked %zd moved %zu cycles %u reasons %x, %u calls", own ? " within a transaction" : "",
       atleast, ta, enough, tl, backlash, batch, stop_at, stop_how, rcname(rc), r.pages_shrinked, r.pages_moved, r.cycles, r.stopping_reasons, calls);
    switch (rc) {
    case MDBX_SUCCESS: c.label("done"); break;
    case MDBX_RESULT_TRUE: c.label("incomplete"); break;
    case MDBX_LAGGARD_READER:
      c.label(!pinned && readers.empty() ? "laggard-without-readers" : "laggard");
      break;
    case MDBX_MAP_FULL: case MDBX_TXN_FULL:
      c.label("full");
      if (db.map_full_ok || own) break;
      // fall through
    default:
      c.fail("mdbx_env_defrag returned %s", rcname(rc));
    }
    if (r.pages_moved) ++moved, c.label("moved");
    if (r.cycles > 1) c.label("cycles");
    if (r.pages_shrinked > 0) c.label("shrunk");
    if (own) {
      // the changes may have been committed by the way
      parse::File f = parse::read(parse::load(dxb(db.cfg, db.path)));
      if (!f.problems.empty()) c.fail("after a defragmentation within a transaction: %s", f.first().c_str());
      Bytes d = parse::compare(f, db.st[1], db.tabs, true);
      if (d.empty()) {
        db.st[0] = db.st[1];
        c.label("published-by-the-way");
      } else {
        Bytes d0 = parse::compare(f, db.st[0], db.tabs, true);
        if (!d0.empty()) c.fail("after a defragmentation within a transaction: file contents: %s", d0.c_str());
      }
      MDBX_txn *t = db.tx[0];
      if (mdbx_txn_flags(t) & (MDBX_TXN_ERROR | MDBX_TXN_FINISHED)) {
        c.label("own-broken");
        db.abort();
      } else
        check_model(t, db.cur(), "in the transaction after a defragmentation");
      c.label("own");
    } else {
      mdbx_env_sync_ex(db.env, true, false);
      inspect("after a defragmentation", db.st[0]);
      const size_t after = used();
      if (after > before) c.label("grown");
      if (after > before + (pinned || readers.size() ? 12 : 2)) c.fail( // a negative result is documented as possible
          "%zu pages are used after a defragmentation, %zu before", after, before);
      if (give && r.pages_shrinked != (intptr_t)before - (intptr_t)after) c.fail("mdbx_env_defrag says that %zd pages were released, it is %zd: %zu before, %zu after", r.pages_shrinked,
             (intptr_t)before - (intptr_t)after, before, after);
      db.env_chk("after a defragmentation");
      if (c.chance(1, 3)) check_committed("after a defragmentation");
    }
    for (auto &x : readers) check_reader(x, "in a pinned reader after a defragmentation");
    return true;
  }
  void finish() override {
    if (!c.chance(1, 40)) return;
    // the tool, on the closed database
    db.must(db.close(), "close");
    const char *tool = getenv("VF_TOOL_DEFRAG");
    if (!tool) c.fail("no tool");
    Bytes log = c.dir + "/tool.log";
    Bytes cmd = Bytes("'") + tool + "' -q " + c.one<const char *>({"", "-1", "-f 50", "-r 10 -3", "-c", "-s 1"}) + " '" + db.path + "' >'" + log + "' 2>&1";
    int st = system(cmd.c_str());
    const int code = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
    TR(c, "%s: %d %s", cmd.c_str(), code, read_file(log).c_str());
    c.label("tool");
    if (code != 0 && code != 1) c.fail("mdbx_defrag exited with status %x: %.300s", st, read_file(log).c_str());
    if (code == 1) c.label("tool-1");
    inspect("after mdbx_defrag", db.st[0]);
    db.must(db.Env::open(c, db.path, db.cfg), "reopen after mdbx_defrag");
    db.reopen_tables();
    check_committed("after mdbx_defrag");
  }
};
} // namespace
void vf::run_case(Ctx &c) {
  S s(c);
  s.run();
  if (s.moved) c.nontrivial();
}
