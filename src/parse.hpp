// Independent reader of the data file format: nothing of the library is used here.
#pragma once
#include "kit.hpp"
namespace parse {
using kit::Bytes;
struct Tree { // as recorded in a file
  uint16_t flags = 0, height = 0;
  uint32_t dupfix = 0, root = 0xffffffff, branch = 0, leaf = 0, large = 0;
  uint64_t seq = 0, items = 0, mod = 0;
};
struct Meta {
  bool ok = false, steady = false;
  uint64_t txnid = 0, sign = 0, retired = 0;
  uint32_t magic_lo = 0, magic_hi = 0, ps = 0;
  uint16_t grow_pv = 0, shrink_pv = 0;
  uint32_t lower = 0, upper = 0, now = 0, next = 0; // geometry, pages
  Tree gc, main;
  uint64_t x = 0, y = 0, z = 0, v = 0; // canary
  uint8_t bootid[16], dxbid[16];
};
struct Table {
  Tree tree;      // as recorded
  Tree real;      // counted
  kit::Flat flat; // contents in order of the tree (named tables of the main one are not included)
  std::map<Bytes, Tree> nested; // recorded nested trees (and synthesised ones of sub-pages) by key
};
struct File {
  Meta meta[3];
  int head = -1;          // slot of the parsed snapshot
  uint32_t ps = 0;
  size_t file_pages = 0;
  Table gc, main;
  std::map<Bytes, Table> tables;
  std::map<uint64_t, std::vector<uint32_t>> freelist;
  std::vector<uint8_t> owner; // per page: 0 nobody, 1 meta, 2 tree of gc, 3 other trees, 4 free list
  std::vector<Bytes> problems;
  size_t free_pages = 0, gc_tree_pages = 0, data_pages = 0;
  void bad(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  Bytes first() const { return problems.empty() ? Bytes() : problems[0]; }
};
enum { HEAD_RECENT = -1, HEAD_STEADY = -2 };
// want: slot number, HEAD_RECENT or HEAD_STEADY (most recent steady one)
File read(const Bytes &image, int want = HEAD_RECENT, bool contents = true);
// the model's contents against a parsed file; returns the first difference
Bytes compare(const File &f, const kit::Model &m, const std::vector<kit::Table> &tabs, bool all_tables = true);
Bytes compare_table(const Table &t, const kit::MTable &m);
// only the used part of a file
Bytes load(const Bytes &path);
} // namespace parse
