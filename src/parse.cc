#include "parse.hpp"
#include <fcntl.h>
#include <stdarg.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
namespace parse {
using namespace kit;
namespace {
enum { BRANCH = 1, LEAF = 2, LARGE = 4, METAP = 8, DUPFIX = 0x20, SUBP = 0x40, SPILLED = 0x2000 };
enum { BIG = 1, TREE = 2, DUP = 4 };
enum { HDR = 20, NODE = 8 };
template <class T> T get(const char *p) {
  T v;
  memcpy(&v, p, sizeof v);
  return v;
}
Tree get_tree(const char *p) {
  Tree t;
  t.flags = get<uint16_t>(p), t.height = get<uint16_t>(p + 2), t.dupfix = get<uint32_t>(p + 4);
  t.root = get<uint32_t>(p + 8), t.branch = get<uint32_t>(p + 12), t.leaf = get<uint32_t>(p + 16), t.large = get<uint32_t>(p + 20);
  t.seq = get<uint64_t>(p + 24), t.items = get<uint64_t>(p + 32), t.mod = get<uint64_t>(p + 40);
  return t;
}
struct Reader {
  File &f;
  const Bytes &img;
  bool contents;
  struct Ctx {
    Table &t;
    const char *what;
    Bytes name;
    unsigned kflags;     // flags for comparing keys of this tree
    bool nested, values; // values: keys are values of a multi-value table
    uint8_t own;
    const Bytes *outer_key = nullptr;
    Tree real;
    Bytes prev;
    bool have_prev = false;
    unsigned vflags = 0;
  };
  int cmp(const Ctx &c, const Bytes &a, const Bytes &b) { return c.values ? cmp_val(c.vflags, a, b) : cmp_key(c.kflags, a, b); }
  bool claim(uint32_t pg, uint8_t who, const char *what) {
    if (pg < 3 || pg >= f.owner.size()) {
      f.bad("%s: page %u is out of the used %zu", what, pg, f.owner.size());
      return false;
    }
    if (f.owner[pg]) {
      f.bad("%s: page %u is referenced twice (%d and %d)", what, pg, f.owner[pg], who);
      return false;
    }
    f.owner[pg] = who;
    return true;
  }
  const char *page(uint32_t pg, const char *what) {
    if ((uint64_t)(pg + 1) * f.ps > img.size()) {
      f.bad("%s: page %u is beyond the file", what, pg);
      return nullptr;
    }
    const char *p = img.data() + (uint64_t)pg * f.ps;
    if (get<uint32_t>(p + 16) != pg) {
      f.bad("%s: page %u has number %u", what, pg, get<uint32_t>(p + 16));
      return nullptr;
    }
    return p;
  }
  void ordered(Ctx &c, const Bytes &k, const Bytes *lo, const Bytes *hi, const char *where) {
    if (c.have_prev && cmp(c, c.prev, k) >= 0) f.bad("%s '%s': %s %s is not after %s", c.what, c.name.c_str(), where, show(k).c_str(), show(c.prev).c_str());
    if (lo && cmp(c, *lo, k) > 0) f.bad("%s '%s': %s %s is before its branch key %s", c.what, c.name.c_str(), where, show(k).c_str(), show(*lo).c_str());
    if (hi && cmp(c, k, *hi) >= 0) f.bad("%s '%s': %s %s is not before the next branch key %s", c.what, c.name.c_str(), where, show(k).c_str(), show(*hi).c_str());
    c.prev = k, c.have_prev = true;
  }
  void add(Ctx &c, const Bytes &k, const Bytes &v) {
    if (contents) c.t.flat.emplace_back(k, v);
  }
  // a leaf with values of fixed size, or a page of nodes inside [p, p+size)
  void dupfix_page(Ctx &c, const char *p, size_t size, uint32_t ks, const Bytes *lo, const Bytes *hi) {
    const size_t n = get<uint16_t>(p + 12) >> 1;
    if (ks == 0 || get<uint16_t>(p + 8) != ks) return f.bad("%s '%s': value size %u of a dupfix page, expected %u", c.what, c.name.c_str(), get<uint16_t>(p + 8), ks);
    if (HDR + n * ks > size) return f.bad("%s '%s': %zu values of %u do not fit a dupfix page", c.what, c.name.c_str(), n, ks);
    for (size_t i = 0; i < n; ++i) {
      Bytes k(p + HDR + i * ks, ks);
      ordered(c, k, lo, hi, "value");
      add(c, *c.outer_key, k);
    }
    c.real.items += n;
  }
  void sub_page(Ctx &c, const Bytes &key, const char *p, size_t size, uint64_t txnid) {
    (void)txnid;
    if (size <= HDR) return f.bad("%s '%s': sub-page of %zu bytes", c.what, c.name.c_str(), size);
    const unsigned fl = get<uint16_t>(p + 10) & ~0x10;
    const size_t n = get<uint16_t>(p + 12) >> 1;
    Ctx s{c.t, c.what, c.name, 0, true, true, c.own, &key};
    s.vflags = c.kflags;
    if (fl == (LEAF | SUBP | DUPFIX))
      dupfix_page(s, p, size, get<uint16_t>(p + 8), nullptr, nullptr);
    else if (fl == (LEAF | SUBP)) {
      size_t used = 0;
      if (HDR + n * 2 > size) return f.bad("%s '%s': %zu nodes of a sub-page", c.what, c.name.c_str(), n);
      for (size_t i = 0; i < n; ++i) {
        size_t off = HDR + get<uint16_t>(p + HDR + 2 * i);
        if (off + NODE > size || off < HDR + 2 * n) return f.bad("%s '%s': node offset in a sub-page", c.what, c.name.c_str());
        size_t ks = get<uint16_t>(p + off + 6), ds = get<uint32_t>(p + off);
        if (p[off + 4] || ds || off + NODE + ks > size) return f.bad("%s '%s': node of a sub-page", c.what, c.name.c_str());
        used += NODE + ((ks + 1) & ~1);
        Bytes v(p + off + NODE, ks);
        ordered(s, v, nullptr, nullptr, "value");
        add(c, key, v);
        s.real.items++;
      }
      (void)used;
    } else
      return f.bad("%s '%s': flags %x of a sub-page", c.what, c.name.c_str(), fl);
    if (!n) f.bad("%s '%s': empty sub-page", c.what, c.name.c_str());
    c.real.items += s.real.items;
    Tree t;
    t.items = s.real.items, t.height = 1, t.leaf = 1;
    if (contents) c.t.nested[key] = t;
  }
  void leaf(Ctx &c, const char *p, uint64_t txnid, const Bytes *lo, const Bytes *hi) {
    const size_t n = get<uint16_t>(p + 12) >> 1, upper = get<uint16_t>(p + 14), lower = get<uint16_t>(p + 12);
    size_t used = 0;
    if (HDR + upper > f.ps || lower > upper) return f.bad("%s '%s': bounds %zu/%zu of a leaf", c.what, c.name.c_str(), lower, upper);
    for (size_t i = 0; i < n; ++i) {
      const size_t off = HDR + get<uint16_t>(p + HDR + 2 * i);
      if (off + NODE > f.ps || off < HDR + upper || (off & 1)) return f.bad("%s '%s': node offset %zu in a leaf", c.what, c.name.c_str(), off);
      const size_t ks = get<uint16_t>(p + off + 6), ds = get<uint32_t>(p + off);
      const unsigned fl = (uint8_t)p[off + 4];
      const size_t inl = fl & BIG ? 4 : ds;
      if (off + NODE + ks + inl > f.ps) return f.bad("%s '%s': node of %zu+%zu bytes in a leaf", c.what, c.name.c_str(), ks, inl);
      used += (NODE + ks + inl + 1) & ~1;
      Bytes k(p + off + NODE, ks);
      const char *d = p + off + NODE + ks;
      ordered(c, k, lo, hi, "key");
      if (c.nested) {
        if (fl || ds) return f.bad("%s '%s': node of a nested tree has flags %x and %zu bytes", c.what, c.name.c_str(), fl, ds);
        add(c, *c.outer_key, k);
        c.real.items++;
        continue;
      }
      switch (fl) {
      case 0:
        add(c, k, Bytes(d, ds));
        c.real.items++;
        break;
      case BIG: {
        const uint32_t pg = get<uint32_t>(d);
        const size_t np = (ds + HDR + f.ps - 1) / f.ps;
        for (size_t q = 0; q < np; ++q)
          if (!claim(pg + q, c.own, "large value")) return;
        const char *lp = page(pg, "large value");
        if (!lp) return;
        if ((get<uint16_t>(lp + 10) & ~SPILLED) != LARGE) f.bad("%s '%s': flags %x of a large page %u", c.what, c.name.c_str(), get<uint16_t>(lp + 10), pg);
        if (get<uint32_t>(lp + 12) != np) f.bad("%s '%s': large value of %zu bytes has %u pages", c.what, c.name.c_str(), ds, get<uint32_t>(lp + 12));
        if (get<uint64_t>(lp) > txnid) f.bad("%s '%s': large page %u of txn %llu under a page of txn %llu", c.what, c.name.c_str(), pg, (unsigned long long)get<uint64_t>(lp), (unsigned long long)txnid);
        if ((uint64_t)pg * f.ps + HDR + ds > img.size()) return f.bad("large value beyond the file");
        add(c, k, Bytes(lp + HDR, ds));
        c.real.large += np, c.real.items++;
        break;
      }
      case TREE: {
        if (ds != 48 || c.own != 3 || &c.t != &f.main) return f.bad("%s '%s': a table record %s", c.what, c.name.c_str(), show(k).c_str());
        Table &t = f.tables[k];
        c.real.items++;
        t.tree = get_tree(d);
        if (t.tree.mod > txnid) f.bad("table %s: mod-txn %llu over a page of txn %llu", show(k).c_str(), (unsigned long long)t.tree.mod, (unsigned long long)txnid);
        walk_table(t, "table", k, 3, std::max<uint64_t>(txnid, t.tree.mod));
        break;
      }
      case DUP: sub_page(c, k, d, ds, txnid); break;
      case DUP | TREE: {
        if (ds != 48) return f.bad("%s '%s': nested tree record of %zu", c.what, c.name.c_str(), ds);
        Tree nt = get_tree(d);
        Ctx s{c.t, c.what, c.name, 0, true, true, c.own, &k};
        s.vflags = c.kflags;
        if (nt.mod > txnid) f.bad("%s '%s': nested mod-txn", c.what, c.name.c_str());
        walk_tree(s, nt, txnid);
        if (contents) c.t.nested[k] = nt;
        c.real.items += s.real.items, c.real.branch += s.real.branch, c.real.leaf += s.real.leaf, c.real.large += s.real.large;
        break;
      }
      default: return f.bad("%s '%s': node flags %x", c.what, c.name.c_str(), fl);
      }
    }
    if (used != f.ps - HDR - upper) f.bad("%s '%s': nodes of a leaf take %zu bytes, %zu are in use", c.what, c.name.c_str(), used, (size_t)f.ps - HDR - upper);
  }
  void walk_page(Ctx &c, uint32_t pg, unsigned level, const Tree &t, uint64_t txnid, const Bytes *lo, const Bytes *hi) {
    if (f.problems.size() > 20) return;
    if (!claim(pg, c.own, c.what)) return;
    const char *p = page(pg, c.what);
    if (!p) return;
    const uint64_t pt = get<uint64_t>(p);
    if (pt > txnid) f.bad("%s '%s': page %u of txn %llu under one of txn %llu", c.what, c.name.c_str(), pg, (unsigned long long)pt, (unsigned long long)txnid);
    const unsigned fl = get<uint16_t>(p + 10) & ~SPILLED;
    const size_t n = get<uint16_t>(p + 12) >> 1, upper = get<uint16_t>(p + 14);
    if (level + 1 < t.height) {
      if (fl != BRANCH) return f.bad("%s '%s': flags %x of page %u at level %u of %u", c.what, c.name.c_str(), fl, pg, level, t.height);
      c.real.branch++;
      if (n < 2) return f.bad("%s '%s': branch page %u with %zu entries", c.what, c.name.c_str(), pg, n);
      if (HDR + 2 * n > f.ps || HDR + upper > f.ps || 2 * n > upper) return f.bad("%s '%s': bounds of branch page %u", c.what, c.name.c_str(), pg);
      std::vector<Bytes> keys(n);
      std::vector<uint32_t> kids(n);
      size_t used = 0;
      for (size_t i = 0; i < n; ++i) {
        const size_t off = HDR + get<uint16_t>(p + HDR + 2 * i);
        if (off + NODE > f.ps || off < HDR + upper || (off & 1)) return f.bad("%s '%s': node offset of branch page %u", c.what, c.name.c_str(), pg);
        const size_t ks = get<uint16_t>(p + off + 6);
        if (off + NODE + ks > f.ps) return f.bad("%s '%s': key size in branch page %u", c.what, c.name.c_str(), pg);
        if (p[off + 4]) f.bad("%s '%s': flags of a branch node", c.what, c.name.c_str());
        keys[i].assign(p + off + NODE, ks), kids[i] = get<uint32_t>(p + off);
        used += (NODE + ks + 1) & ~1;
        if (i == 0 && ks) f.bad("%s '%s': first key of branch page %u has %zu bytes", c.what, c.name.c_str(), pg, ks);
      }
      if (used != f.ps - HDR - upper) f.bad("%s '%s': nodes of branch page %u take %zu bytes, %zu are in use", c.what, c.name.c_str(), pg, used, (size_t)f.ps - HDR - upper);
      for (size_t i = 0; i < n; ++i) walk_page(c, kids[i], level + 1, t, pt, i ? &keys[i] : lo, i + 1 < n ? &keys[i + 1] : hi);
    } else {
      c.real.leaf++;
      if (!n) return f.bad("%s '%s': leaf page %u is empty", c.what, c.name.c_str(), pg);
      if (fl == (LEAF | DUPFIX)) {
        if (!c.nested) return f.bad("%s '%s': dupfix page %u in a table", c.what, c.name.c_str(), pg);
        dupfix_page(c, p, f.ps, t.dupfix, lo, hi);
      } else if (fl == LEAF)
        leaf(c, p, pt, lo, hi);
      else
        return f.bad("%s '%s': flags %x of leaf page %u", c.what, c.name.c_str(), fl, pg);
    }
  }
  void walk_tree(Ctx &c, const Tree &t, uint64_t txnid) {
    if (t.root == 0xffffffff) {
      if (t.items || t.height || t.branch || t.leaf || t.large) f.bad("%s '%s': an empty tree with counters", c.what, c.name.c_str());
      return;
    }
    if (!t.height || t.height > 32) return f.bad("%s '%s': height %u", c.what, c.name.c_str(), t.height);
    Ctx &s = c;
    walk_page(s, t.root, 0, t, txnid, nullptr, nullptr);
    s.real.height = t.height;
    if (f.problems.empty() && s.nested && (s.real.items != t.items || s.real.branch != t.branch || s.real.leaf != t.leaf || s.real.large != t.large))
      f.bad("%s '%s': nested tree counts %llu items %u+%u+%u pages, it has %llu, %u+%u+%u", c.what, c.name.c_str(), (unsigned long long)t.items, t.branch, t.leaf, t.large,
            (unsigned long long)s.real.items, s.real.branch, s.real.leaf, s.real.large);
  }
  void walk_table(Table &t, const char *what, const Bytes &name, uint8_t own, uint64_t txnid) {
    Ctx c{t, what, name, t.tree.flags, false, false, own};
    walk_tree(c, t.tree, txnid);
    t.real = c.real;
    if (f.problems.empty() && (t.real.items != t.tree.items || t.real.branch != t.tree.branch || t.real.leaf != t.tree.leaf || t.real.large != t.tree.large))
      f.bad("%s '%s' counts %llu items %u+%u+%u pages, it has %llu, %u+%u+%u", what, show(name).c_str(), (unsigned long long)t.tree.items, t.tree.branch, t.tree.leaf, t.tree.large,
            (unsigned long long)t.real.items, t.real.branch, t.real.leaf, t.real.large);
  }
};
} // namespace
void File::bad(const char *fmt, ...) {
  char b[400];
  va_list a;
  va_start(a, fmt);
  vsnprintf(b, sizeof b, fmt, a);
  va_end(a);
  problems.push_back(b);
}
File read(const Bytes &img, int want, bool contents) {
  File f;
  if (img.size() < 3 * 256) {
    f.bad("the file has %zu bytes only", img.size());
    return f;
  }
  // the page size is known from whichever root record is readable at its place
  for (uint32_t ps = 256; ps <= 65536 && !f.ps; ps *= 2)
    for (int i = 0; i < 3 && !f.ps; ++i) {
      size_t off = (size_t)ps * i;
      if (off + HDR + 200 > img.size()) continue;
      const char *m = img.data() + off + HDR;
      if (get<uint32_t>(m + 4) == 0x59659DBDu && get<uint32_t>(img.data() + off + 16) == (uint32_t)i && get<uint32_t>(m + 20 + 20 + 4) == ps) f.ps = ps;
    }
  if (!f.ps) {
    f.bad("no root record");
    return f;
  }
  f.file_pages = img.size() / f.ps;
  for (int i = 0; i < 3; ++i) {
    Meta &m = f.meta[i];
    const size_t off = (size_t)f.ps * i;
    if (off + HDR + 250 > img.size()) continue;
    const char *p = img.data() + off + HDR;
    m.magic_lo = get<uint32_t>(p), m.magic_hi = get<uint32_t>(p + 4);
    const uint64_t a = get<uint64_t>(p + 8);
    p += 20; // geometry
    m.grow_pv = get<uint16_t>(p), m.shrink_pv = get<uint16_t>(p + 2), m.lower = get<uint32_t>(p + 4), m.upper = get<uint32_t>(p + 8), m.now = get<uint32_t>(p + 12), m.next = get<uint32_t>(p + 16);
    p += 20;
    m.gc = get_tree(p), m.main = get_tree(p + 48);
    m.ps = get<uint32_t>(p + 4);
    p += 96;
    m.x = get<uint64_t>(p), m.y = get<uint64_t>(p + 8), m.z = get<uint64_t>(p + 16), m.v = get<uint64_t>(p + 24);
    m.sign = get<uint64_t>(p + 32), m.steady = m.sign > 1;
    const uint64_t b = get<uint64_t>(p + 40);
    m.retired = get<uint64_t>(p + 48);
    memcpy(m.bootid, p + 56, 16), memcpy(m.dxbid, p + 72, 16);
    m.txnid = a;
    m.ok = a == b && a && m.ps == f.ps && m.magic_hi == 0x59659DBDu && (get<uint16_t>(img.data() + off + 10) & METAP) && get<uint32_t>(img.data() + off + 16) == (uint32_t)i;
  }
  if (want >= 0)
    f.head = f.meta[want].ok ? want : -1;
  else
    for (int i = 0; i < 3; ++i)
      if (f.meta[i].ok && (want != HEAD_STEADY || f.meta[i].steady) && (f.head < 0 || f.meta[i].txnid > f.meta[f.head].txnid)) f.head = i;
  if (f.head < 0) {
    f.bad("no valid root record");
    return f;
  }
  Meta &h = f.meta[f.head];
  if (h.next > h.now || h.now > h.upper || h.lower > h.now || h.next < 3) f.bad("geometry %u/%u/%u with %u used", h.lower, h.now, h.upper, h.next);
  if ((uint64_t)h.next * f.ps > img.size()) {
    f.bad("the file has %zu bytes, %u pages are in use", img.size(), h.next);
    return f;
  }
  if (h.next < 3) return f;
  f.owner.assign(h.next, 0);
  f.owner[0] = f.owner[1] = f.owner[2] = 1;
  Reader r{f, img, contents};
  f.main.tree = h.main;
  r.walk_table(f.main, "main", "", 3, h.txnid);
  r.contents = true; // the free list is needed
  f.gc.tree = h.gc;
  f.gc.tree.flags = MDBX_INTEGERKEY; // the place of the height's neighbour is shared with the page size
  f.gc.tree.dupfix = 0;
  r.walk_table(f.gc, "gc", "", 2, h.txnid);
  for (size_t i = 3; i < f.owner.size(); ++i) f.owner[i] == 2 ? ++f.gc_tree_pages : f.owner[i] == 3 ? ++f.data_pages : 0;
  for (auto &e : f.gc.flat) {
    if (e.first.size() != 8) {
      f.bad("gc record key of %zu bytes", e.first.size());
      continue;
    }
    const uint64_t id = get<uint64_t>(e.first.data());
    if (id < 1 || id > h.txnid) f.bad("gc record of txn %llu, the last one is %llu", (unsigned long long)id, (unsigned long long)h.txnid);
    if (e.second.size() < 4 || e.second.size() % 4) {
      f.bad("gc record of %zu bytes", e.second.size());
      continue;
    }
    const uint32_t n = get<uint32_t>(e.second.data());
    if ((n + 1ull) * 4 > e.second.size()) {
      f.bad("gc record with %u pages in %zu bytes", n, e.second.size());
      continue;
    }
    auto &l = f.freelist[id];
    for (uint32_t i = 0; i < n; ++i) {
      uint32_t pg = get<uint32_t>(e.second.data() + 4 + 4 * i);
      if (i && pg >= l.back()) f.bad("gc record of txn %llu is not sorted: %u after %u", (unsigned long long)id, pg, l.back());
      l.push_back(pg);
      if (r.claim(pg, 4, "gc record")) ++f.free_pages;
    }
  }
  if (f.problems.empty()) {
    size_t lost = 0, first = 0;
    for (size_t i = 3; i < f.owner.size(); ++i)
      if (!f.owner[i] && !lost++) first = i;
    if (lost) f.bad("%zu pages are lost, the first is %zu of %zu", lost, first, f.owner.size());
  }
  return f;
}
Bytes compare_table(const Table &t, const MTable &m) {
  char b[400];
  if ((t.tree.flags & ~0x8000u) != m.flags) {
    snprintf(b, sizeof b, "flags %x, expected %x", t.tree.flags, m.flags);
    return b;
  }
  size_t i = 0;
  for (auto &e : m.m)
    for (auto &v : e.second) {
      if (i >= t.flat.size()) {
        snprintf(b, sizeof b, "%zu pairs, expected %llu", t.flat.size(), (unsigned long long)m.items);
        return b;
      }
      if (t.flat[i].first != e.first || t.flat[i].second != v) {
        snprintf(b, sizeof b, "pair %zu is %s = %s, expected %s = %s", i, show(t.flat[i].first).c_str(), show(t.flat[i].second).c_str(), show(e.first).c_str(), show(v).c_str());
        return b;
      }
      ++i;
    }
  if (i != t.flat.size()) {
    snprintf(b, sizeof b, "%zu pairs, expected %zu", t.flat.size(), i);
    return b;
  }
  if (t.tree.seq != m.seq) {
    snprintf(b, sizeof b, "sequence %llu, expected %llu", (unsigned long long)t.tree.seq, (unsigned long long)m.seq);
    return b;
  }
  return "";
}
Bytes compare(const File &f, const Model &m, const std::vector<kit::Table> &tabs, bool all_tables) {
  (void)tabs;
  for (auto &e : m.t) {
    const Table *t = nullptr;
    if (e.first.empty())
      t = &f.main;
    else {
      auto it = f.tables.find(e.first);
      if (it == f.tables.end()) return "table " + show(e.first) + " is absent";
      t = &it->second;
    }
    Bytes d = compare_table(*t, *e.second);
    if (!d.empty()) return "table " + show(e.first) + ": " + d;
  }
  if (all_tables)
    for (auto &e : f.tables)
      if (!m.t.count(e.first)) return "unexpected table " + show(e.first);
  const Meta &h = f.meta[f.head];
  if (h.x != m.canary.x || h.y != m.canary.y || h.z != m.canary.z) return "markers differ";
  return "";
}
Bytes load(const Bytes &path) {
  Bytes r;
  int fd = open(path.c_str(), O_RDONLY | O_CLOEXEC);
  if (fd < 0) return r;
  struct stat st;
  if (!fstat(fd, &st)) {
    r.resize(st.st_size);
    size_t n = 0;
    while (n < r.size()) {
      ssize_t k = pread(fd, &r[n], r.size() - n, n);
      if (k <= 0) break;
      n += k;
    }
    r.resize(n);
  }
  close(fd);
  return r;
}
} // namespace parse
