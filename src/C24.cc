// C24: damaged or hostile database files are handled without harm.
#include "hist.hpp"
#include "dmg.hpp"
#include <sys/stat.h>
using namespace kit;
using namespace dmg;
const vf::Config vf::config = {
    "C24",
    "a case is one database produced by a generated history, of which up to 6 copies get one to three damages each (a catalogue of structural ones, random bytes and words, exchanged and zeroed pages, "
    "truncation, wrong identifying fields); each copy is opened with validation and read, iterated, searched, estimated, checked and copied (and modified if only records of the list of free pages are damaged): every call must end with a result or an error code, "
    "never with a crash, a hang or an access outside the file (address sanitizer, poisoned unused pages); wrong identifying fields must be refused with the documented code; "
    "non-trivial: at least 3 damaged copies",
    10000, 400000};
namespace {
struct S : hist::H {
  using H::H;
  unsigned copies = 0;
  void configure(EnvCfg &g) override {
    H::configure(g);
    max_readers = 1;
    w = {40, 8, 4, 14, 3, 1, 1, 2, 1, 1, 1, 0, 0, 3, 1};
  }
  const char *wild(Bytes &b, const Map &m) {
    PageRef p, q;
    NodeRef n;
    const uint32_t ps = m.ps;
    switch (c.below(8)) {
    case 0:
      b[c.below(std::min(b.size(), (size_t)m.next * ps))] ^= 1 << c.below(8);
      return "a bit";
    case 1: // header of a page
      any(c, m.pages, p);
      put<uint16_t>(b, p.off + 2 * c.below(10), c.one<unsigned>({0, 1, 2, 4, 0x20, 0x7fff, 0x8000, 0xffff, (unsigned)c.below(65536)}));
      return "a word of a page header";
    case 2: // item
      if (!any(c, m.nodes, n)) return nullptr;
      put<uint16_t>(b, n.off + 2 * c.below(4), c.one<unsigned>({0, 1, 2, 4, 0x7fff, 0x8000, 0xffff, (unsigned)c.below(65536)}));
      return "a word of an item header";
    case 3: // index of items
      if (!any(c, m.pages, p) || !p.n) return nullptr;
      put<uint16_t>(b, p.off + HDR + 2 * c.below(p.n), c.one<unsigned>({0, 1, 2, 0x7fff, 0x8000, 0xffff, ps, ps - HDR, ps - HDR - 2, (unsigned)c.below(ps)}));
      return "an item offset";
    case 4:
      any(c, m.pages, p), any(c, m.pages, q);
      if (std::max(p.off, q.off) + ps > b.size()) return nullptr;
      b.replace(p.off, ps, b.substr(q.off, ps));
      if (c.flip()) put<uint32_t>(b, p.off + 16, p.pg);
      return "a page overwritten by another";
    case 5:
      any(c, m.pages, p);
      if (p.off + ps > b.size()) return nullptr;
      {
        const size_t from = c.flip() ? 0 : c.below(ps);
        b.replace(p.off + from, ps - from, Bytes(ps - from, c.flip() ? 0 : (char)0xff));
      }
      return "a page wiped";
    case 6: { // a word of the root record
      put<uint32_t>(b, m.meta + HDR + 8 + 4 * c.below(48), c.one<uint32_t>({0, 1, 2, 3, 0x7fffffff, 0x80000000, 0xffffffff, m.next, m.now, (uint32_t)c.bits()}));
      return "a word of the root record";
    }
    default: { // a tree record
      TreeRef t;
      any(c, m.trees, t);
      put<uint32_t>(b, t.rec + 4 * c.below(12), c.one<uint32_t>({0, 1, 2, 3, 0x7fffffff, 0x80000000, 0xffffffff, m.next, (uint32_t)c.bits()}));
      return "a word of a tree record";
    }
    }
  }
  bool ok(int rc) { return rc == MDBX_SUCCESS || rc == MDBX_RESULT_TRUE; }
  unsigned rounds = 0;
  void read_table(MDBX_txn *t, MDBX_dbi d, unsigned fl) {
    MDBX_cursor *q = nullptr;
    if (mdbx_cursor_open(t, d, &q)) return;
    MDBX_val k, v;
    size_t sum = 0;
    auto touch = [&](const MDBX_val &x) {
      for (size_t i = 0; i < x.iov_len; ++i) sum += ((const uint8_t *)x.iov_base)[i];
    };
    std::vector<Bytes> seen;
    unsigned n = 0;
    const bool back = c.flip();
    int rc = mdbx_cursor_get(q, &k, &v, back ? MDBX_LAST : MDBX_FIRST);
    while (ok(rc) && ++n < 20000) {
      touch(k), touch(v);
      if (seen.size() < 40 && c.chance(1, 4)) seen.push_back(B(k));
      if (c.chance(1, 16)) {
        size_t cnt;
        mdbx_cursor_count(q, &cnt);
      }
      rc = mdbx_cursor_get(q, &k, &v, back ? MDBX_PREV : MDBX_NEXT);
    }
    if (n >= 20000) c.label("endless or long scan");
    if (rc != MDBX_NOTFOUND) c.label("scan ends with an error");
    for (unsigned i = 0; i < 6; ++i) {
      Bytes key = seen.empty() || c.chance(1, 3) ? Bytes(fl & MDBX_INTEGERKEY ? 4 : c.below(20), (char)c.bits()) : seen[c.below(seen.size())];
      k = V(key);
      switch (c.below(6)) {
      case 0: rc = mdbx_get(t, d, &k, &v); break;
      case 1: rc = mdbx_cursor_get(q, &k, &v, MDBX_SET_RANGE); break;
      case 2: rc = mdbx_cursor_get(q, &k, &v, MDBX_SET_KEY); break;
      case 3: rc = mdbx_cursor_get(q, &k, &v, c.one<MDBX_cursor_op>({MDBX_LAST_DUP, MDBX_FIRST_DUP, MDBX_NEXT_NODUP, MDBX_PREV_NODUP, MDBX_GET_MULTIPLE, MDBX_NEXT_MULTIPLE})); break;
      case 4: {
        ptrdiff_t e;
        rc = mdbx_estimate_range(t, d, &k, nullptr, nullptr, nullptr, &e);
        v = {nullptr, 0}, k = {nullptr, 0};
        break;
      }
      default: rc = mdbx_cursor_get(q, &k, &v, MDBX_GET_CURRENT);
      }
      if (ok(rc) && v.iov_base) touch(v);
    }
    mdbx_cursor_close(q);
    volatile size_t sink = sum;
    (void)sink;
  }
  void change_table(MDBX_txn *t, MDBX_dbi d, unsigned fl) {
    MDBX_cursor *q = nullptr;
    for (unsigned i = 1 + c.below(12); i--;) {
      uint64_t ik = c.below(50), iv = c.below(50);
      Bytes key = fl & MDBX_INTEGERKEY ? Bytes((char *)&ik, c.flip() ? 4 : 8) : Bytes("k") + std::to_string(c.below(1000));
      Bytes val = fl & MDBX_INTEGERDUP ? Bytes((char *)&iv, c.flip() ? 4 : 8) : Bytes(fl & MDBX_DUPSORT ? c.below(60) : c.skewed(9000), 'v');
      MDBX_val k = V(key), v = V(val);
      switch (c.below(7)) {
      case 0: case 1: case 2: mdbx_put(t, d, &k, &v, MDBX_UPSERT); break;
      case 3: mdbx_del(t, d, &k, nullptr); break;
      case 4:
        if (!mdbx_cursor_open(t, d, &q)) {
          if (ok(mdbx_cursor_get(q, &k, &v, c.flip() ? MDBX_FIRST : MDBX_LAST)))
            for (unsigned n = c.below(30); n-- && ok(mdbx_cursor_del(q, c.flip() ? MDBX_CURRENT : MDBX_ALLDUPS));) mdbx_cursor_get(q, &k, &v, MDBX_NEXT);
          mdbx_cursor_close(q);
        }
        break;
      case 5:
        if (!mdbx_cursor_open(t, d, &q)) {
          if (ok(mdbx_cursor_get(q, &k, &v, MDBX_SET_RANGE))) mdbx_cursor_put(q, &k, &v, MDBX_CURRENT);
          mdbx_cursor_close(q);
        }
        break;
      default:
        if (c.chance(1, 4)) mdbx_drop(t, d, c.flip());
      }
    }
  }
  void use(const Bytes &path, bool modify) {
    MDBX_env *e = nullptr;
    db.must(mdbx_env_create(&e), "mdbx_env_create");
    mdbx_env_set_maxdbs(e, 30);
    const bool ro = c.chance(1, 3);
    const unsigned fl = MDBX_NOSUBDIR | MDBX_VALIDATION | (ro ? MDBX_RDONLY : 0) | (c.chance(1, 4) ? MDBX_EXCLUSIVE : 0) | (c.chance(1, 5) ? MDBX_WRITEMAP : 0) | MDBX_UTTERLY_NOSYNC;
    int rc = mdbx_env_open(e, path.c_str(), MDBX_env_flags_t(fl), 0644);
    TR(c, "open flags=%x -> %s", fl, rcname(rc));
    if (rc) {
      c.label("refused");
      mdbx_env_close_ex(e, true);
      return;
    }
    c.label("opened");
    bool changed = false;
    for (unsigned s = 1 + c.below(4); s--;) {
      const unsigned what = c.weighted({4, 3, ro || !modify ? 0u : 5u, 1, 1});
      TR(c, "step %u", what);
      if (what == 0 || what == 2) {
        MDBX_txn *t = nullptr;
        rc = mdbx_txn_begin(e, nullptr, what ? MDBX_TXN_READWRITE : MDBX_TXN_RDONLY, &t);
        if (rc) continue;
        std::vector<const char *> names = {nullptr};
        std::vector<Bytes> nm;
        for (auto &tb : db.tabs)
          if (!tb.name.empty()) names.push_back(tb.name.c_str());
        for (const char *x : {"x0", "x1", "x2", "x3"}) names.push_back(x);
        for (const char *x : names) {
          if (c.chance(1, 3)) continue;
          MDBX_dbi d;
          rc = mdbx_dbi_open(t, x, MDBX_DB_ACCEDE, &d);
          if (rc) continue;
          unsigned f = 0, st = 0;
          mdbx_dbi_flags_ex(t, d, &f, &st);
          TR(c, "table %s flags=%x", x ? x : "main", f);
          MDBX_stat ms;
          mdbx_dbi_stat(t, d, &ms, sizeof ms);
          if (what == 0 || c.chance(1, 3))
            read_table(t, d, f);
          else
            change_table(t, d, f), changed = true;
        }
        if (what == 0) {
          MDBX_gc_info_t gi;
          mdbx_gc_info(t, &gi, sizeof gi, nullptr, nullptr);
          mdbx_txn_abort(t);
        } else {
          rc = c.chance(2, 3) ? mdbx_txn_commit(t) : mdbx_txn_abort(t);
          TR(c, "end -> %s", rcname(rc));
          c.label(ok(rc) ? "changed" : "change fails");
        }
      } else if (what == 1) {
        ChkResult r = run_chk(e, 0);
        TR(c, "chk -> %s, %zu", rcname(r.rc), r.problems);
        c.label("checked");
      } else if (what == 3) {
        Bytes to = c.dir + "/copy";
        unlink(to.c_str());
        rc = mdbx_env_copy(e, to.c_str(), c.flip() ? MDBX_CP_COMPACT : MDBX_CP_DEFAULTS);
        TR(c, "copy -> %s", rcname(rc));
        unlink(to.c_str());
        c.label("copied");
      } else {
        MDBX_envinfo i;
        mdbx_env_info_ex(e, nullptr, &i, sizeof i);
        MDBX_stat st;
        mdbx_env_stat_ex(e, nullptr, &st, sizeof st);
        mdbx_env_sync_ex(e, true, false);
      }
    }
    (void)changed;
    mdbx_env_close_ex(e, c.flip());
  }
  // wrong identifying fields in all root records
  void identify(const Bytes &img, const Map &m, const Bytes &path) {
    Bytes b = img;
    const unsigned what = c.below(4);
    std::initializer_list<int> want;
    int w1 = 0, w2 = 0;
    const char *nm = "";
    for (int i = 0; i < 3; ++i) {
      const size_t o = (size_t)i * m.ps;
      switch (what) {
      case 0: b[o + HDR + 1 + 0 * c.below(8)] ^= 0x55, w1 = MDBX_VERSION_MISMATCH, w2 = MDBX_INVALID, nm = "magic"; b[o + HDR + 7] ^= 0x10; break;
      case 1: b[o + HDR + 0] += 1 + i * 0, w1 = MDBX_VERSION_MISMATCH, w2 = MDBX_VERSION_MISMATCH, nm = "version"; break;
      case 2: put<uint32_t>(b, o + HDR + 20 + 20 + 4, 12345), w1 = MDBX_INVALID, w2 = MDBX_CORRUPTED, nm = "page size"; break;
      default: put<uint64_t>(b, o + HDR, c.bits()), w1 = MDBX_INVALID, w2 = MDBX_VERSION_MISMATCH, nm = "random magic"; break;
      }
    }
    write_file(path, b);
    unlink((path + MDBX_LOCK_SUFFIX).c_str());
    MDBX_env *e = nullptr;
    db.must(mdbx_env_create(&e), "mdbx_env_create");
    const unsigned fl = MDBX_NOSUBDIR | (c.flip() ? MDBX_RDONLY : 0) | (c.flip() ? MDBX_EXCLUSIVE : 0);
    int rc = mdbx_env_open(e, path.c_str(), MDBX_env_flags_t(fl), 0644);
    mdbx_env_close_ex(e, true);
    TR(c, "wrong %s, open flags=%x -> %s", nm, fl, rcname(rc));
    if (rc != w1 && rc != w2) c.fail("a file with wrong %s is opened with %s, expected %s or %s", nm, rcname(rc), rcname(w1), rcname(w2));
    if (read_file(path) != b) c.fail("a refused file with wrong %s was changed", nm);
    c.label(nm);
  }
  void finish() override {
    Bytes file = dxb(db.cfg, db.path);
    int rc = mdbx_env_sync_ex(db.env, true, false);
    if (rc != MDBX_RESULT_TRUE) db.must(rc, "mdbx_env_sync_ex");
    Bytes img = read_file(file);
    parse::File f = parse::read(img);
    if (!f.problems.empty()) c.fail("the parser finds a problem: %s", f.first().c_str());
    Map m(img, f);
    Bytes path = c.dir + "/img";
    for (unsigned i = 0; i < 6; ++i) {
      if (c.chance(1, 12)) {
        identify(img, m, path);
        continue;
      }
      Bytes b = img;
      Bytes names;
      bool modify = true; // damages which the library notices while it changes something
      for (unsigned n = c.one<unsigned>({1, 1, 1, 2, 3}); n--;) {
        if ((size_t)m.next * m.ps > b.size()) break; // truncated
        const char *what = nullptr;
        for (unsigned k = 0; k < 6 && !what; ++k) what = c.flip() ? wild(b, m) : dmg::damage(c, b, m);
        if (what && strcmp(what, "impossible page in the free list") && strcmp(what, "order of the free list") && strcmp(what, "length of a free list record") && strcmp(what, "page twice in the free list")) modify = false;
        if (what) names += Bytes(names.empty() ? "" : ", ") + what;
      }
      if (b == img) continue;
      TR(c, "damage: %s", names.c_str());
      write_file(path, b);
      unlink((path + MDBX_LOCK_SUFFIX).c_str());
      use(path, modify);
      ++copies;
    }
    unlink(path.c_str());
    unlink((path + MDBX_LOCK_SUFFIX).c_str());
  }
};
} // namespace
void vf::run_case(Ctx &c) {
  mdbx_setup_debug(MDBX_LOG_FATAL, MDBX_DBG_DONTCHANGE, nullptr);
  S s(c);
  s.run();
  if (s.copies >= 3) c.nontrivial();
}
