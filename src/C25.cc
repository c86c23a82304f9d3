// C25: the integrity checker finds real damage and only real damage.
#include "hist.hpp"
#include "dmg.hpp"
#include <sys/stat.h>
#include <sys/wait.h>
using namespace kit;
using namespace dmg;
const vf::Config vf::config = {
    "C25",
    "a case is one database produced by a generated history; the checker must be silent on it and report totals equal to those of an independent parser of the file; then up to 12 copies get one "
    "damage each from a catalogue of structural inconsistencies placed at random, the parser confirms the damage, and the checker (the function, sometimes the tool) must report a problem or the "
    "file must be refused; non-trivial: at least 4 confirmed damages of at least 3 kinds",
    8000, 160000};
namespace {
struct S : hist::H {
  using H::H;
  unsigned hits = 0;
  std::set<Bytes> kinds;
  void configure(EnvCfg &g) override {
    H::configure(g);
    max_readers = 1; // pinned snapshots give long lists of free pages
    w = {40, 8, 4, 14, 3, 1, 1, 2, 1, 1, 1, 0, 0, 4, 2};
  }
  int tool(const Bytes &path) {
    pid_t p = fork();
    if (p == 0) {
      vf_child_init();
      freopen("/dev/null", "w", stdout), freopen("/dev/null", "w", stderr);
      execl(getenv("VF_TOOL_CHK"), "mdbx_chk", "-q", path.c_str(), (char *)nullptr);
      _exit(127);
    }
    int st = 0;
    if (p < 0 || waitpid(p, &st, 0) != p) c.inconclusive("fork");
    if (WIFSIGNALED(st)) c.fail("mdbx_chk was killed by signal %d", WTERMSIG(st));
    return WEXITSTATUS(st);
  }
  struct Out {
    int open = 0;
    ChkResult r;
  };
  Out check(const Bytes &path) {
    Out o;
    MDBX_env *e = nullptr;
    db.must(mdbx_env_create(&e), "mdbx_env_create");
    mdbx_env_set_maxdbs(e, 30);
    const unsigned fl = MDBX_NOSUBDIR | (c.flip() ? MDBX_RDONLY : 0) | (c.flip() ? MDBX_EXCLUSIVE : 0) | (c.flip() ? MDBX_VALIDATION : 0);
    o.open = mdbx_env_open(e, path.c_str(), MDBX_env_flags_t(fl), 0644);
    TR(c, "open flags=%x -> %s", fl, rcname(o.open));
    if (!o.open) o.r = run_chk(e, 0);
    mdbx_env_close_ex(e, true);
    return o;
  }
  void finish() override {
    Bytes file = dxb(db.cfg, db.path);
    int rc = mdbx_env_sync_ex(db.env, true, false);
    if (rc != MDBX_RESULT_TRUE) db.must(rc, "mdbx_env_sync_ex");
    Bytes img = read_file(file);
    parse::File f = parse::read(img);
    if (!f.problems.empty()) c.fail("the parser finds a problem: %s", f.first().c_str());
    Map m(img, f);
    // ---- silent on a valid one
    Bytes path = c.dir + "/img";
    write_file(path, img);
    unlink((path + MDBX_LOCK_SUFFIX).c_str());
    Out o = check(path);
    if (o.open || o.r.rc || o.r.problems) c.fail("a valid database: open %s, check %s, %zu problems: %s", rcname(o.open), rcname(o.r.rc), o.r.problems, o.r.text.c_str());
    if (o.r.gc_pages != f.free_pages || o.r.used_pages != m.next || o.r.tables != f.tables.size())
      c.fail("the checker reports %zu free pages, %zu allocated pages, %zu tables; there are %zu, %u, %zu", o.r.gc_pages, o.r.used_pages, o.r.tables, f.free_pages, m.next, f.tables.size());
    if (c.chance(1, 24)) {
      write_file(path, img);
      unlink((path + MDBX_LOCK_SUFFIX).c_str());
      int x = tool(path);
      c.label("tool on a valid database");
      if (x) c.fail("mdbx_chk exits with %d on a valid database", x);
    }
    // ---- damages
    for (unsigned i = 0; i < 12; ++i) {
      Bytes b = img;
      const char *what = nullptr;
      for (unsigned k = 0; k < 6 && !what; ++k) what = dmg::damage(c, b, m);
      if (!what || b == img) continue;
      Bytes full = b; // bytes lost from unused places are no damage
      if (full.size() < (size_t)m.next * m.ps) full.resize((size_t)m.next * m.ps);
      parse::File g = parse::read(full);
      if (g.problems.empty() || g.first().find(" are in use") != Bytes::npos) {
        c.label("not confirmed");
        c.label((Bytes("not confirmed: ") + what).c_str());
        continue;
      }
      TR(c, "damage: %s (%s)", what, g.first().c_str());
      write_file(path, b);
      unlink((path + MDBX_LOCK_SUFFIX).c_str());
      const bool use_tool = c.chance(1, 40);
      if (use_tool) {
        int x = tool(path);
        c.label("tool");
        if (!x) c.fail("mdbx_chk exits with 0 on a database with damage '%s': %s", what, g.first().c_str());
      } else {
        o = check(path);
        if (!o.open && !o.r.rc && !o.r.problems) c.fail("damage '%s' is not found: %s", what, g.first().c_str());
        c.label(o.open ? "refused" : "reported");
      }
      ++hits;
      kinds.insert(what);
      c.label(what);
    }
    unlink(path.c_str());
    unlink((path + MDBX_LOCK_SUFFIX).c_str());
  }
};
} // namespace
void vf::run_case(Ctx &c) {
  mdbx_setup_debug(MDBX_LOG_FATAL, MDBX_DBG_DONTCHANGE, nullptr);
  S s(c);
  s.run();
  if (s.hits >= 4 && s.kinds.size() >= 3) c.nontrivial();
}
