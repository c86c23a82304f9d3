// Power-failure simulation under a history: the contents of the data file seen by the kernel, what of it is known to be
// on the disk, and every version of a block that may have reached the disk since.
#pragma once
#include "hist.hpp"
#include "io.hpp"
#include "parse.hpp"
#include <algorithm>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
namespace crash {
using namespace kit;
enum { BLK = 512 };
struct Image {
  Bytes data;
  size_t lo = 0, hi = 0;        // allowed states: indices of committed ones
  std::shared_ptr<Model> extra; // and the one that was being committed
  Bytes what;                   // the event and the strategy
  bool partial = false;         // some blocks were left out
};
struct Disk : io::Hook {
  // ---- the simulated disk
  Bytes path;
  dev_t dev = 0;
  ino_t ino = 0;
  int fd = -1; // own descriptor
  Bytes now, durable; // what the kernel has; what is surely on the disk
  struct Version {
    uint32_t time;
    Bytes data;
  };
  std::map<uint32_t, std::vector<Version>> pending; // by block
  std::vector<std::pair<uint32_t, size_t>> sizes;   // pending sizes
  uint32_t time = 0;
  std::vector<std::pair<char *, size_t>> maps;
  bool live = false;
  uint64_t events = 0, syncs = 0, writes = 0;
  Ctx *tr = nullptr;
  std::function<void(const char *)> moment; // a possible moment of a power failure
  ~Disk() {
    if (io::hook == this) io::hook = nullptr;
    if (fd >= 0) ::close(fd);
  }
  void watch() { io::hook = this; } // before the environment is opened, to see its mappings
  void track(const Bytes &p) {      // all of the present contents is on the disk
    io::Quiet q;
    path = p;
    fd = ::open(p.c_str(), O_RDONLY | O_CLOEXEC);
    struct stat st;
    fstat(fd, &st);
    dev = st.st_dev, ino = st.st_ino;
    now = durable = parse::load(p);
    live = true;
  }
  bool mine(int f) {
    struct stat st;
    return f >= 0 && !fstat(f, &st) && st.st_dev == dev && st.st_ino == ino;
  }
  void note(size_t from, size_t to) { // compares with the kernel's contents
    ++time;
    struct stat st;
    fstat(fd, &st);
    const size_t size = st.st_size;
    if (size != now.size()) {
      sizes.emplace_back(time, size);
      now.resize(size);
      from = 0, to = size; // a growth after a shrink yields zeros
    }
    if (to > size) to = size;
    from = from / BLK * BLK;
    static thread_local Bytes buf;
    buf.resize(1 << 16);
    for (size_t o = from; o < to;) {
      size_t n = std::min(to - o, buf.size());
      n = (n + BLK - 1) / BLK * BLK;
      ssize_t got = pread(fd, &buf[0], n, o);
      if (got <= 0) break;
      if (memcmp(&now[o], buf.data(), std::min<size_t>(got, size - o)))
        for (size_t b = 0; b < (size_t)got; b += BLK) {
          const size_t len = std::min<size_t>(BLK, got - b);
          if (memcmp(&now[o + b], &buf[b], len)) {
            memcpy(&now[o + b], &buf[b], len);
            pending[(o + b) / BLK].push_back(Version{time, Bytes(&buf[b], len)});
          }
        }
      o += got;
    }
  }
  void flushed(size_t from, size_t to) { // fsync, fdatasync, msync and O_DSYNC take a changed size with the data
    durable.resize(now.size()), sizes.clear();
    for (auto it = pending.lower_bound(from / BLK); it != pending.end() && (size_t)it->first * BLK < to;) {
      const size_t o = (size_t)it->first * BLK;
      if (o < now.size()) memcpy(&durable[o], &now[o], std::min<size_t>(BLK, now.size() - o));
      it = pending.erase(it);
    }
  }
  bool ours(const io::Call &k) {
    switch (k.op) {
    case io::PWRITE: case io::PWRITEV: case io::WRITE: case io::WRITEV: case io::FDATASYNC: case io::FSYNC: case io::FTRUNCATE: case io::FALLOCATE: return mine(k.fd);
    case io::MSYNC:
      for (auto &m : maps)
        if ((char *)k.addr >= m.first && (char *)k.addr < m.first + m.second) return true;
      return false;
    default: return false;
    }
  }
  int before(io::Call &k) override {
    if (!live || !ours(k)) return 0;
    ++events;
    if (tr) TR(*tr, "  %s off %llu len %zu now %zu durable %zu", io::name[k.op], (unsigned long long)k.off, k.len, now.size(), durable.size());
    if (k.op == io::MSYNC || k.op == io::FSYNC || k.op == io::FDATASYNC || k.op == io::FTRUNCATE || !maps.empty()) note(0, ~0ull);
    if (k.op == io::MSYNC || k.op == io::FSYNC || k.op == io::FDATASYNC) ++syncs;
    moment(io::name[k.op]);
    return 0;
  }
  void after(io::Call &k) override {
    if (k.op == io::MMAP && k.result != -1 && k.fd >= 0 && (k.flags & MAP_SHARED)) {
      struct stat st;
      if (!live || mine(k.fd)) {
        fstat(k.fd, &st);
        all.emplace_back((char *)k.result, k.len);
        if (live) maps.emplace_back((char *)k.result, k.len);
        inos.push_back(st.st_ino);
      }
      return;
    }
    if (k.op == io::MREMAP && k.result != -1) {
      for (auto &m : maps)
        if (m.first == k.addr) m = {(char *)k.result, k.len};
      for (auto &m : all)
        if (m.first == k.addr) m = {(char *)k.result, k.len};
      return;
    }
    if (k.op == io::MUNMAP && k.result == 0) {
      for (size_t i = 0; i < maps.size(); ++i)
        if (maps[i].first == k.addr) maps.erase(maps.begin() + i--);
      return;
    }
    if (!live || !ours(k) || k.result < 0) return;
    switch (k.op) {
    case io::PWRITE: case io::PWRITEV:
      ++writes;
      note(k.off, k.off + k.result);
      if (fcntl(k.fd, F_GETFL) & O_DSYNC) flushed(k.off, k.off + k.result), ++syncs;
      break;
    case io::FTRUNCATE: note(0, ~0ull); break;
    case io::FSYNC: case io::FDATASYNC: flushed(0, ~0ull); break;
    case io::MSYNC:
      if (k.flags & MS_SYNC)
        for (auto &m : maps)
          if ((char *)k.addr >= m.first && (char *)k.addr < m.first + m.second) {
            const size_t o = (char *)k.addr - m.first;
            flushed(o, o + k.len);
          }
      break;
    default: note(0, ~0ull);
    }
    moment("after");
  }
  std::vector<std::pair<char *, size_t>> all; // mappings made before tracking
  std::vector<ino_t> inos;
  void adopt() { // mappings of the tracked file made before
    for (size_t i = 0; i < all.size(); ++i)
      if (inos[i] == ino) maps.push_back(all[i]);
  }
  // one possible contents of the disk after a power failure now
  Bytes build(vf::Bulk &r, Bytes &how, bool &partial) {
    note(0, ~0ull);
    Bytes img = durable;
    size_t size = durable.size();
    // any of the pending sizes may have reached the disk
    if (!sizes.empty() && r.below(4)) size = r.below(2) ? sizes.back().second : sizes[r.below(sizes.size())].second;
    img.resize(std::max(size, now.size()));
    const size_t unit = r.below(4) ? 4096 : 512;
    const unsigned strategy = r.below(8);
    const size_t meta = 3 * (size_t)ps;
    std::vector<uint32_t> units;
    for (auto &p : pending) {
      uint32_t u = (uint64_t)p.first * BLK / unit;
      if (units.empty() || units.back() != u) units.push_back(u);
    }
    const uint32_t special = units.empty() ? 0 : units[r.below(units.size())];
    size_t applied = 0;
    for (uint32_t u : units) {
      const size_t o = (size_t)u * unit;
      uint32_t t = 0; // everything not newer than that got to the disk
      switch (strategy) {
      case 0: t = r.below(2) ? time : 0; break;                 // halves
      case 1: t = u == special ? 0 : time; break;               // all but one
      case 2: t = u == special ? time : 0; break;               // only one
      case 3: t = r.below(time + 1); break;                     // any age
      case 4: t = o < meta ? time : 0; break;                   // only roots
      case 5: t = o < meta ? 0 : time; break;                   // all but roots
      case 6: t = o < meta ? time : r.below(4) ? time : 0; break; // roots and most
      case 7: t = time; break;                                  // everything
      }
      bool any = false;
      for (auto it = pending.lower_bound(o / BLK); it != pending.end() && (size_t)it->first * BLK < o + unit; ++it)
        for (size_t i = it->second.size(); i-- > 0;)
          if (it->second[i].time <= t) {
            const size_t at = (size_t)it->first * BLK, n = it->second[i].data.size();
            if (at + n > img.size()) img.resize(at + n);
            memcpy(&img[at], it->second[i].data.data(), n);
            any = true;
            break;
          }
      applied += any;
    }
    img.resize(size);
    partial = strategy != 7 && !units.empty();
    char b[200];
    snprintf(b, sizeof b, "%zu of %zu pending units of %zu bytes are on the disk (strategy %u), size %zu of %zu", applied, units.size(), unit, strategy, size, now.size());
    how = b;
    return img;
  }
  unsigned ps = 4096;
};

struct Crasher : hist::H {
  Disk disk;
  std::vector<Model> states; // committed ones, in order
  size_t lo = 0;             // the oldest state that may come back
  std::vector<Image> images;
  uint64_t moments = 0, seed = 0;
  bool fragile = false;
  unsigned want_images = 8, period = 6;
  explicit Crasher(Ctx &c) : hist::H(c) {
    disk.moment = [this](const char *w) { moment(w); };
    seed = c.bits(), period = c.one<unsigned>({6, 2, 1, 12, 30});
    want_images = c.thorough ? 14 : 7;
    disk.watch();
    disk.tr = &c;
  }
  static bool changed(const Model &a, const Model &b) {
    if (a.t.size() != b.t.size() || memcmp(&a.canary, &b.canary, sizeof a.canary)) return true;
    for (auto x = a.t.begin(), y = b.t.begin(); x != a.t.end(); ++x, ++y)
      if (x->first != y->first || (x->second != y->second && (x->second->m != y->second->m || x->second->seq != y->second->seq || x->second->flags != y->second->flags)))
        return true;
    return false;
  }
  void sync_states() {
    if (states.empty() || changed(states.back(), db.st[0])) states.push_back(db.st[0]);
  }
  void moment(const char *w) {
    if (!disk.live || fragile) return;
    vf::Bulk r(seed + ++moments * 7919);
    const bool pick = db.publishing ? r.below(period) == 0 : r.below(period * 3) == 0;
    if (!pick) return;
    size_t slot = images.size();
    if (slot >= want_images) {
      slot = r.below(moments);
      if (slot >= want_images) return;
    } else
      images.emplace_back();
    sync_states();
    Image &i = images[slot];
    i.lo = lo, i.hi = states.size() - 1, i.extra = nullptr;
    if (db.publishing && changed(states.back(), db.st.back())) i.extra = std::make_shared<Model>(db.st.back());
    Bytes how;
    i.data = disk.build(r, how, i.partial);
    TR(c, "  * power failure image %zu", slot);
    i.what = Bytes(w) + (db.publishing ? " within a commit: " : ": ") + how;
  }
  void recover(Image &im) {
    io::Quiet q;
    Bytes img = im.data;
    reboot(img); // another boot: its identifier differs from the recorded ones
    const Bytes path = c.dir + "/crashed";
    write_file(path, img);
    Env e;
    EnvCfg g = db.cfg;
    g.flags = (g.flags & (MDBX_LIFORECLAIM | MDBX_WRITEMAP)) | MDBX_NOSUBDIR;
    if (im.data.size() & 512 * 8) g.flags ^= MDBX_WRITEMAP;
    const bool geo = im.hi % 3 == 0;
    int rc = e.open(c, path, g, 0, geo);
    if (rc) c.fail("power failure at %s: opening the database returned %s", im.what.c_str(), rcname(rc));
    ChkResult k = run_chk(e.env);
    if (k.rc || k.problems)
      c.fail("power failure at %s: the integrity check after reopening says %s, %zu problems: %.600s", im.what.c_str(), rcname(k.rc), k.problems, k.text.c_str());
    // which state is it?
    auto parsed = [&]() {
      Bytes now = parse::load(path);
      parse::File f = parse::read(now);
      if (!f.problems.empty()) c.fail("power failure at %s: structure after reopening: %s", im.what.c_str(), f.first().c_str());
      return f;
    };
    mdbx_env_sync_ex(e.env, true, false);
    parse::File f = parsed();
    Bytes last;
    const Model *now = nullptr;
    const char *which = "";
    if (im.extra && parse::compare(f, *im.extra, db.tabs).empty()) now = im.extra.get(), which = "recovered-inflight";
    for (size_t i = im.hi + 1; !now && i-- > im.lo;) {
      Bytes diff = parse::compare(f, states[i], db.tabs);
      if (i == im.hi) last = diff;
      if (diff.empty()) now = &states[i], which = i < im.hi ? "recovered-older" : im.extra ? "recovered-before-inflight" : "recovered-last";
    }
    if (!now) {
      for (size_t i = im.lo; i-- > 0;)
        if (parse::compare(f, states[i], db.tabs).empty())
          c.fail("power failure at %s: state %zu came back, but %zu..%zu%s was guaranteed", im.what.c_str(), i, im.lo, im.hi, im.extra ? " or the one being committed" : "");
      c.fail("power failure at %s: the recovered contents is no committed state of %zu..%zu%s, the last committed one differs: %s", im.what.c_str(), im.lo, im.hi,
             im.extra ? " or the one being committed" : "", last.c_str());
    }
    c.label(which);
    // life goes on
    MDBX_txn *t;
    db.must(mdbx_txn_begin(e.env, nullptr, MDBX_TXN_READWRITE, &t), "mdbx_txn_begin after recovery");
    bool full = false;
    for (auto &tb : now->t) {
      if (full) break;
      if (tb.second->flags & ~(MDBX_REVERSEKEY | MDBX_DUPSORT)) continue;
      MDBX_dbi d;
      db.must(mdbx_dbi_open(t, tb.first.empty() ? nullptr : tb.first.c_str(), MDBX_DB_ACCEDE, &d), "mdbx_dbi_open after recovery");
      for (int i = 0; i < 12; ++i) {
        Bytes kk = "after" + std::to_string(i * 37 % 12);
        MDBX_val a = V(kk), b = V(kk);
        rc = mdbx_put(t, d, &a, &b, MDBX_UPSERT);
        if (rc == MDBX_MAP_FULL) {
          full = true;
          break;
        }
        db.must(rc, "mdbx_put after recovery");
      }
    }
    rc = full ? mdbx_txn_abort(t) : mdbx_txn_commit(t);
    if (rc != MDBX_MAP_FULL) db.must(rc, "mdbx_txn_commit after recovery");
    k = run_chk(e.env);
    if (k.rc || k.problems)
      c.fail("power failure at %s: the integrity check after a later commit says %s, %zu problems: %.600s", im.what.c_str(), rcname(k.rc), k.problems, k.text.c_str());
    db.must(e.close(), "close of the recovered database");
    unlink(path.c_str());
    unlink((path + MDBX_LOCK_SUFFIX).c_str());
  }
  void reboot(Bytes &img) {
    for (size_t m = 0; m < 3; ++m) {
      const size_t o = m * db.cfg.ps + BOOTID;
      if (o + 16 <= img.size())
        for (int i = 0; i < 16; ++i) img[o + i] ^= 0x55;
    }
  }
  enum { BOOTID = 20 + 8 + 8 + 4 + 20 + 96 + 32 + 8 + 8 + 8 };
  void setup() override {
    int rc = mdbx_env_sync_ex(db.env, true, false);
    if (rc != MDBX_RESULT_TRUE) db.must(rc, "mdbx_env_sync_ex");
    disk.ps = db.cfg.ps;
    disk.track(dxb(db.cfg, db.path));
    disk.adopt();
    sync_states();
  }
  void finish() override {
    disk.live = false;
    size_t n = 0;
    for (auto &i : images) recover(i), ++n;
    c.label("images", n);
    c.label("events", disk.events);
  }
};
} // namespace crash
