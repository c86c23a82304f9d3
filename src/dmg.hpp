// Structure-aware damage of data files.
#pragma once
#include "parse.hpp"
#include <cstring>
namespace dmg {
using kit::Bytes;
enum { HDR = 20, NODE = 8, BRANCH = 1, LEAF = 2, LARGE = 4, DUPFIX = 0x20, SPILLED = 0x2000, BIG = 1, TREE = 2, DUP = 4 };
template <class T> T get(const Bytes &b, size_t off) {
  T v = 0;
  if (off <= b.size() && b.size() - off >= sizeof v) memcpy(&v, b.data() + off, sizeof v);
  return v;
}
template <class T> void put(Bytes &b, size_t off, T v) {
  if (off <= b.size() && b.size() - off >= sizeof v) memcpy(&b[off], &v, sizeof v);
}
struct TreeRef { // a recorded tree
  size_t rec;    // offset of the record in the file
  int kind;      // 0 gc, 1 main, 2 named, 3 nested
  uint16_t height;
  uint32_t root;
};
struct PageRef {
  uint32_t pg;
  int tree; // index of its tree
  unsigned level;
  unsigned flags;
  size_t n;
  size_t off;
};
struct NodeRef {
  size_t off;
  int page; // index of its page
  size_t idx;
  unsigned flags;
  size_t ks, ds;
  size_t data() const { return off + NODE + ks; }
};
struct Large {
  uint32_t pg, np;
  size_t node;
};
struct Sub {
  size_t off, size, n;
  bool fixed;
};
struct Map { // of the head snapshot of a valid file
  uint32_t ps = 0;
  size_t meta = 0; // offset of the head's meta page
  uint64_t txnid = 0;
  uint32_t next = 0, now = 0;
  std::vector<TreeRef> trees;
  std::vector<PageRef> pages;
  std::vector<NodeRef> nodes;
  std::vector<Large> large;
  std::vector<Sub> subs;
  const Bytes *b = nullptr;
  void page(uint32_t pg, int tree, unsigned level) {
    const size_t off = (size_t)pg * ps;
    PageRef p{pg, tree, level, (unsigned)(get<uint16_t>(*b, off + 10) & ~SPILLED), (size_t)get<uint16_t>(*b, off + 12) >> 1, off};
    const int me = pages.size();
    pages.push_back(p);
    if (p.flags & DUPFIX) return;
    for (size_t i = 0; i < p.n; ++i) {
      const size_t no = off + HDR + get<uint16_t>(*b, off + HDR + 2 * i);
      NodeRef n{no, me, i, (unsigned)(uint8_t)(*b)[no + 4], get<uint16_t>(*b, no + 6), get<uint32_t>(*b, no)};
      nodes.push_back(n);
      if (p.flags & BRANCH) {
        page(n.ds, tree, level + 1);
      } else if (trees[tree].kind != 3) {
        if (n.flags == BIG)
          large.push_back({get<uint32_t>(*b, n.data()), (uint32_t)((n.ds + HDR + ps - 1) / ps), n.off});
        else if (n.flags & TREE)
          this->tree(n.data(), n.flags & DUP ? 3 : 2);
        else if (n.flags == DUP) {
          subs.push_back({n.data(), n.ds, (size_t)get<uint16_t>(*b, n.data() + 12) >> 1, (get<uint16_t>(*b, n.data() + 10) & DUPFIX) != 0});
        }
      }
    }
  }
  void tree(size_t rec, int kind) {
    TreeRef t{rec, kind, get<uint16_t>(*b, rec + 2), get<uint32_t>(*b, rec + 8)};
    trees.push_back(t);
    if (t.root != 0xffffffff) page(t.root, trees.size() - 1, 0);
  }
  Map(const Bytes &image, const parse::File &f) : b(&image) {
    ps = f.ps, meta = (size_t)f.head * ps;
    txnid = f.meta[f.head].txnid, next = f.meta[f.head].next, now = f.meta[f.head].now;
    tree(meta + HDR + 40, 0);
    tree(meta + HDR + 88, 1);
  }
};
template <class T> bool any(vf::Ctx &c, const std::vector<T> &v, T &x) {
  if (v.empty()) return false;
  x = v[c.below(v.size())];
  return true;
}
// one damage; returns its name, or null if there is no eligible place
inline const char *damage(vf::Ctx &c, Bytes &b, const Map &m) {
  PageRef p;
  NodeRef n;
  TreeRef t;
  Large l;
  Sub s;
  const uint32_t ps = m.ps;
  switch (c.below(28)) {
  case 0:
    if (!any(c, m.pages, p)) return nullptr;
    put<uint32_t>(b, p.off + 16, c.flip() ? p.pg + 1 : c.below(m.next));
    return "page number";
  case 1:
    if (!any(c, m.pages, p)) return nullptr;
    put<uint16_t>(b, p.off + 10, p.flags ^ c.one<unsigned>({1, 2, 3, 4, 8, 0x20, 0x40, 6, 0x4000}));
    return "page type";
  case 2: { // order of neighbours
    if (!any(c, m.pages, p) || (p.flags & DUPFIX) || p.n < 2) return nullptr;
    const size_t i = c.below(p.n - 1), o = p.off + HDR + 2 * i;
    const uint16_t x = get<uint16_t>(b, o), y = get<uint16_t>(b, o + 2);
    put<uint16_t>(b, o, y), put<uint16_t>(b, o + 2, x);
    return p.flags & BRANCH ? "order in a branch" : "order in a leaf";
  }
  case 3: { // two subtrees exchanged
    if (!any(c, m.pages, p) || !(p.flags & BRANCH)) return nullptr;
    const size_t i = c.below(p.n), j = c.below(p.n);
    if (i == j) return nullptr;
    const size_t a = p.off + HDR + get<uint16_t>(b, p.off + HDR + 2 * i), d = p.off + HDR + get<uint16_t>(b, p.off + HDR + 2 * j);
    const uint32_t x = get<uint32_t>(b, a), y = get<uint32_t>(b, d);
    put<uint32_t>(b, a, y), put<uint32_t>(b, d, x);
    return "exchanged subtrees";
  }
  case 4: { // counters
    if (!any(c, m.trees, t)) return nullptr;
    const unsigned f = c.below(4);
    const int d = c.one<int>({1, -1, 2, 100});
    if (f == 3)
      put<uint64_t>(b, t.rec + 32, get<uint64_t>(b, t.rec + 32) + d);
    else
      put<uint32_t>(b, t.rec + 12 + 4 * f, get<uint32_t>(b, t.rec + 12 + 4 * f) + d);
    static const char *const nm[4][4] = {{"gc branch count", "gc leaf count", "gc large count", "gc items"},
                                         {"main branch count", "main leaf count", "main large count", "main items"},
                                         {"table branch count", "table leaf count", "table large count", "table items"},
                                         {"nested branch count", "nested leaf count", "nested large count", "nested items"}};
    return nm[t.kind][f];
  }
  case 5:
    if (!any(c, m.trees, t) || t.root == 0xffffffff) return nullptr;
    put<uint16_t>(b, t.rec + 2, t.height + (c.flip() ? 1 : -1));
    return "height";
  case 6: // references
    if (!any(c, m.nodes, n) || !(m.pages[n.page].flags & BRANCH)) return nullptr;
    switch (c.below(4)) {
    case 0: put<uint32_t>(b, n.off, c.one<uint32_t>({m.next, m.next + 1, 0x7fffffff, 0xffffffff, m.now})); return "reference out of range";
    case 1: put<uint32_t>(b, n.off, c.below(3)); return "reference to a root record";
    default: {
      PageRef q;
      any(c, m.pages, q);
      put<uint32_t>(b, n.off, q.pg);
      return "reference to another page";
    }
    }
  case 7:
    if (!any(c, m.large, l)) return nullptr;
    {
      const size_t d = l.node + NODE + get<uint16_t>(b, l.node + 6);
      PageRef q;
      Large o;
      any(c, m.pages, q), any(c, m.large, o);
      put<uint32_t>(b, d, c.weighted({1, 2, 2}) == 0 ? m.next + c.below(3) : c.flip() ? q.pg : o.pg);
    }
    return "reference to a large page";
  case 8: // large page
    if (!any(c, m.large, l)) return nullptr;
    switch (c.below(3)) {
    case 0: put<uint32_t>(b, (size_t)l.pg * ps + 12, l.np + c.one<int>({1, -1, 7})); return "number of pages of a large value";
    case 1: put<uint32_t>(b, (size_t)l.pg * ps + 16, l.pg + 1); return "page number of a large value";
    default: put<uint16_t>(b, (size_t)l.pg * ps + 10, c.one<unsigned>({LEAF, BRANCH, LARGE | LEAF, 0})); return "type of a large page";
    }
  case 9: case 10: case 11: case 12: { // free list records
    std::vector<NodeRef> v;
    for (auto &x : m.nodes)
      if (m.trees[m.pages[x.page].tree].kind == 0 && (m.pages[x.page].flags & LEAF) && x.ds >= 4) v.push_back(x);
    if (!any(c, v, n)) return nullptr;
    const size_t d = n.flags & BIG ? (size_t)get<uint32_t>(b, n.data()) * ps + HDR : n.data();
    const uint32_t cnt = get<uint32_t>(b, d);
    const size_t i = cnt ? d + 4 + 4 * c.below(cnt) : 0;
    switch (c.below(7)) {
    case 0:
      if (!cnt) return nullptr;
      put<uint32_t>(b, d, cnt - 1);
      return "free page leaked";
    case 1:
      if (!cnt) return nullptr;
      if (!any(c, m.pages, p)) return nullptr;
      put<uint32_t>(b, i, p.pg);
      return "used page in the free list";
    case 2:
      if (!cnt) return nullptr;
      put<uint32_t>(b, i, c.one<uint32_t>({0, 1, 2, m.next, m.next + 1, 0x7fffffff}));
      return "impossible page in the free list";
    case 3:
      if (cnt < 2) return nullptr;
      {
        const size_t a = d + 4 + 4 * c.below(cnt - 1);
        put<uint32_t>(b, a, get<uint32_t>(b, a + 4));
      }
      return "page twice in the free list";
    case 4:
      if (cnt < 2) return nullptr;
      {
        const size_t a = d + 4 + 4 * c.below(cnt - 1);
        const uint32_t x = get<uint32_t>(b, a), y = get<uint32_t>(b, a + 4);
        put<uint32_t>(b, a, y), put<uint32_t>(b, a + 4, x);
      }
      return "order of the free list";
    case 5: put<uint32_t>(b, d, cnt + c.one<uint32_t>({1, 50, 0x10000000})); return "length of a free list record";
    default:
      if (n.ks != 8) return nullptr;
      put<uint64_t>(b, n.off + NODE, m.txnid + 1 + c.below(3));
      return "txnid of a free list record";
    }
  }
  case 13: // bounds of a page
    if (!any(c, m.pages, p)) return nullptr;
    put<uint16_t>(b, p.off + 12, 2 * (p.n + c.one<int>({1, -1, 2, 40, -40})));
    return "number of items of a page";
  case 14:
    if (!any(c, m.pages, p)) return nullptr;
    put<uint16_t>(b, p.off + 14, get<uint16_t>(b, p.off + 14) + c.one<int>({2, -2, 1, -1, 2000}));
    return "upper bound of a page";
  case 15:
    if (!any(c, m.nodes, n)) return nullptr;
    put<uint16_t>(b, n.off + 6, n.ks + c.one<int>({2, -2, 1, -1, 300}));
    return "key length";
  case 16:
    if (!any(c, m.nodes, n) || (m.pages[n.page].flags & BRANCH)) return nullptr;
    put<uint32_t>(b, n.off, n.ds + c.one<int>({2, -2, 1, -1, 3000, 0x10000000}));
    return "value length";
  case 17:
    if (!any(c, m.nodes, n)) return nullptr;
    b[n.off + 4] = n.flags ^ c.one<int>({1, 2, 4, 6, 8, 0x80});
    return "item flags";
  case 18:
    if (!any(c, m.pages, p)) return nullptr;
    put<uint64_t>(b, p.off, m.txnid + c.one<uint64_t>({1, 2, 1000, UINT64_C(1) << 62}));
    return "txnid of a page";
  case 19: // records
    if (!any(c, m.trees, t)) return nullptr;
    switch (c.below(4)) {
    case 0: put<uint32_t>(b, t.rec + 8, t.root == 0xffffffff ? c.below(m.next) : 0xffffffff); return "root reference of a tree";
    case 1: put<uint32_t>(b, t.rec + 8, c.one<uint32_t>({0, 2, m.next, m.next + 5, 0x80000000})); return "root reference of a tree";
    case 2:
      if (t.kind < 2) return nullptr;
      put<uint64_t>(b, t.rec + 40, m.txnid + 1 + c.below(100));
      return "mod-txnid of a tree";
    default: {
      PageRef q;
      if (!any(c, m.pages, q) || q.pg == t.root) return nullptr;
      put<uint32_t>(b, t.rec + 8, q.pg);
      return "root reference of a tree";
    }
    }
  case 20: // sub-pages
    if (!any(c, m.subs, s)) return nullptr;
    switch (c.below(4)) {
    case 0:
      put<uint16_t>(b, s.off + 12, 2 * (s.n + c.one<int>({1, -1, 100})));
      return "number of items of a sub-page";
    case 1:
      put<uint16_t>(b, s.off + 10, get<uint16_t>(b, s.off + 10) ^ c.one<unsigned>({1, 2, 4, 0x20, 0x40}));
      return "type of a sub-page";
    case 2:
      if (s.n < 2) return nullptr;
      if (s.fixed) {
        const size_t ks = get<uint16_t>(b, s.off + 8), i = s.off + HDR + ks * c.below(s.n - 1);
        Bytes x = b.substr(i, ks), y = b.substr(i + ks, ks);
        b.replace(i, ks, y), b.replace(i + ks, ks, x);
      } else {
        const size_t i = s.off + HDR + 2 * c.below(s.n - 1);
        const uint16_t x = get<uint16_t>(b, i), y = get<uint16_t>(b, i + 2);
        put<uint16_t>(b, i, y), put<uint16_t>(b, i + 2, x);
      }
      return "order of a sub-page";
    default:
      if (!s.fixed) return nullptr;
      put<uint16_t>(b, s.off + 8, get<uint16_t>(b, s.off + 8) + c.one<int>({1, -1, 4, 400}));
      return "value size of a sub-page";
    }
  case 21: // order of values of a fixed size
    if (!any(c, m.pages, p) || !(p.flags & DUPFIX)) return nullptr;
    {
      const size_t ks = get<uint16_t>(b, p.off + 8);
      if (c.chance(1, 3)) {
        put<uint16_t>(b, p.off + 8, ks + c.one<int>({1, -1, 4}));
        return "value size of a page";
      }
      if (p.n < 2) return nullptr;
      const size_t i = p.off + HDR + ks * c.below(p.n - 1);
      Bytes x = b.substr(i, ks), y = b.substr(i + ks, ks);
      b.replace(i, ks, y), b.replace(i + ks, ks, x);
      return "order of a page of fixed values";
    }
  case 22: // a key changed in place
    if (!any(c, m.nodes, n) || !n.ks) return nullptr;
    b[n.off + NODE + c.below(n.ks)] ^= 1 << c.below(8);
    return m.pages[n.page].flags & BRANCH ? "changed branch key" : "changed leaf key";
  case 23:
    if (m.next >= m.now) return nullptr;
    put<uint32_t>(b, m.meta + HDR + 36, m.next + 1);
    if ((size_t)(m.next + 1) * ps > b.size()) b.resize((size_t)(m.next + 1) * ps);
    return "page leaked at the end";
  case 24: put<uint32_t>(b, m.meta + HDR + 36, m.next - 1); return "first unallocated page";
  case 25: // root records
    switch (c.below(4)) {
    case 0:
      for (int i = 0; i < 3; ++i) put<uint64_t>(b, (size_t)i * ps + HDR + 8, get<uint64_t>(b, (size_t)i * ps + HDR + 8) + 1 + i * 7);
      return "torn root records";
    case 1:
      for (int i = 0; i < 3; ++i) b[(size_t)i * ps + HDR + c.below(8)] ^= 1 << c.below(8);
      return "magic of root records";
    case 2:
      for (int i = 0; i < 3; ++i) b[(size_t)i * ps + 16] ^= 4;
      return "page numbers of root records";
    default:
      for (int i = 0; i < 3; ++i) b[(size_t)i * ps + 10] ^= 8;
      return "types of root records";
    }
  case 26:
    if (m.next <= 3) return nullptr;
    b.resize((size_t)(3 + c.below(m.next - 3)) * ps + c.below(ps));
    return "truncated file";
  default: // flags of a table
    if (!any(c, m.trees, t) || t.kind != 2) return nullptr;
    put<uint16_t>(b, t.rec, get<uint16_t>(b, t.rec) ^ c.one<unsigned>({2, 4, 8, 16, 32, 64, 0x80, 0x1000}));
    return "flags of a table";
  }
}
} // namespace dmg
