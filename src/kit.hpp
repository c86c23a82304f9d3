// Reference model, generators and database wrapper shared by the properties.
#pragma once
#include "mdbx.h"
#include "vf.hpp"
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace kit {
using vf::Ctx;
using Bytes = std::string;

#define TR(c, ...)                                                                                                     \
  do {                                                                                                                 \
    if ((c).tracing)                                                                                                   \
      (c).trace(__VA_ARGS__);                                                                                          \
  } while (0)

inline MDBX_val V(const Bytes &b) {
  MDBX_val v;
  v.iov_base = (void *)b.data();
  v.iov_len = b.size();
  return v;
}
inline Bytes B(const MDBX_val &v) { return Bytes((const char *)v.iov_base, v.iov_len); }
inline bool eqv(const MDBX_val &v, const Bytes &b) {
  return v.iov_len == b.size() && (b.empty() || memcmp(v.iov_base, b.data(), b.size()) == 0);
}
Bytes show(const Bytes &b);         // short printable form
const char *rcname(int rc);
Bytes opname(MDBX_cursor_op op);

constexpr unsigned DUPMASK = MDBX_DUPSORT | MDBX_DUPFIXED | MDBX_INTEGERDUP | MDBX_REVERSEDUP;

// ------------------------------------------------------------- order
int cmp_bytes(const Bytes &a, const Bytes &b);
int cmp_rev(const Bytes &a, const Bytes &b);
int cmp_int(const Bytes &a, const Bytes &b);
int cmp_key(unsigned flags, const Bytes &a, const Bytes &b);
int cmp_val(unsigned flags, const Bytes &a, const Bytes &b);
struct KeyLess {
  unsigned flags;
  bool operator()(const Bytes &a, const Bytes &b) const { return cmp_key(flags, a, b) < 0; }
};

// ------------------------------------------------------------- model
struct MTable {
  unsigned flags = 0;
  std::map<Bytes, std::vector<Bytes>, KeyLess> m;
  uint64_t items = 0; // pairs
  uint64_t seq = 0;
  explicit MTable(unsigned f) : flags(f), m(KeyLess{f}) {}
  bool dup() const { return flags & MDBX_DUPSORT; }
  // value position within a key
  size_t vpos(const std::vector<Bytes> &v, const Bytes &x, bool &exact) const;
  bool has(const Bytes &k) const { return m.count(k) != 0; }
  bool has(const Bytes &k, const Bytes &v) const;
  const Bytes *get(const Bytes &k) const;
  void set(const Bytes &k, const Bytes &v);  // replace everything under k by v
  bool add(const Bytes &k, const Bytes &v);  // add a pair (multi), or set (single); false when the pair is there
  bool del(const Bytes &k);
  bool del(const Bytes &k, const Bytes &v);
  void clear() { m.clear(), items = 0; }
  // flattened pairs with rank access
  std::vector<std::pair<Bytes, Bytes>> flat() const;
};
using TP = std::shared_ptr<MTable>;
struct Model {
  std::map<Bytes, TP> t;
  MDBX_canary canary{};
  uint64_t main_seq = 0; // of the main table when it is not a table of the model
  MTable &rw(const Bytes &name); // copy-on-write access
  const MTable &ro(const Bytes &name) const { return *t.at(name); }
};

// ------------------------------------------------------------- environment configuration
struct EnvCfg {
  unsigned ps = 4096;
  unsigned flags = 0; // MDBX_env_flags
  intptr_t lower = -1, now = -1, upper = 64 << 20, growth = -1, shrink = -1;
  unsigned max_db = 12, max_readers = 0;
  std::vector<std::pair<MDBX_option_t, uint64_t>> opts;
  bool small_dp = false; // MDBX_TXN_FULL is possible
  Bytes describe() const;
};
struct CfgReq {
  bool sync_modes = true;     // any of the sync modes
  bool allow_writemap = true;
  bool tuning = true;
  bool small_pages = true;    // prefer small pages (deep trees)
  bool tight_geometry = false;
  bool dp_limit = true;
  size_t upper = 96u << 20;
};
EnvCfg gen_cfg(Ctx &c, const CfgReq &r = CfgReq());

struct Env {
  MDBX_env *env = nullptr;
  Bytes path;
  EnvCfg cfg;
  int open(Ctx &c, const Bytes &path, const EnvCfg &cfg, unsigned extra_flags = 0, bool set_geo = true); // rc
  int close(bool dont_sync = false);
  ~Env();
};

// ------------------------------------------------------------- keys and values of a table
struct Domain {
  unsigned flags = 0, ps = 4096;
  size_t kmax = 0, vmin = 0, vmax = 0;
  int kstyle = 0, vstyle = 0;
  unsigned nkeys = 20, nvals = 20;
  unsigned klen = 8, vlen = 8; // integer/fixed sizes
  unsigned salt = 0;
  unsigned big = 0; // 0 none, 1 rare large values, 2 frequent
  Bytes key_of(uint64_t id) const;
  Bytes val_of(uint64_t id) const; // multi-value tables: small universe of values
  Bytes gen_key(Ctx &c) const { return key_of(c.below(nkeys)); }
  Bytes gen_val(Ctx &c) const;
  // existing key with good probability
  Bytes gen_key_for(Ctx &c, const MTable &t) const;
  Bytes gen_val_for(Ctx &c, const MTable &t, const Bytes &key) const;
  Bytes describe() const;
};
Domain gen_domain(Ctx &c, unsigned flags, unsigned ps, unsigned max_keys);
unsigned gen_table_flags(Ctx &c, int kind); // kind: 0 any, 1 single-valued, 2 multi-valued

// ------------------------------------------------------------- database under a model
struct Table {
  Bytes name; // "" is the main table
  MDBX_dbi dbi = 0;
  Domain dom;
};
struct Db : Env {
  Ctx &c;
  std::vector<MDBX_txn *> tx;     // stack of write transactions
  std::vector<Model> st;          // st[0] committed, st[i] inside tx[i-1]
  std::vector<Table> tabs;
  bool txn_full = false;          // the innermost transaction hit MDBX_TXN_FULL
  explicit Db(Ctx &c) : c(c) { st.resize(1); }
  ~Db() {
    while (!tx.empty()) {
      mdbx_txn_abort(tx.back());
      tx.pop_back();
    }
  }
  Model &cur() { return st.back(); }
  MDBX_txn *txn() { return tx.empty() ? nullptr : tx.back(); }
  void must(int rc, const char *what); // fails the case unless MDBX_SUCCESS
  void expect(int rc, int want, const char *what);
  void open_env(const EnvCfg &cfg);
  void make_tables(unsigned n, int kind, unsigned max_keys, bool allow_main);
  void reopen_tables();            // dbi handles after reopening the environment
  void reopen();                   // close, possibly changing modes, open
  void begin(unsigned flags = 0);
  void begin_nested();
  void commit();
  void abort();
  void close_all();
  // full comparison
  void check_table(MDBX_txn *t, MDBX_dbi dbi, const MTable &m, const char *where, bool backwards = false);
  void check_all(MDBX_txn *t, const Model &m, const char *where);
  void check_current(const char *where);
  void check_committed(const char *where); // through a fresh read transaction
  void env_chk(const char *where);         // integrity checker says zero problems
  // single operations on table i with generated arguments; return false when the transaction became full
  bool op_put(Table &t);
  bool op_get(Table &t);
  bool op_del(Table &t);
  bool op_replace(Table &t);
  bool op_multi_put(Table &t);
  bool op_bulk(Table &t, unsigned max_items);      // a run of plain puts or deletes
  bool op_sequence(Table &t);
  bool op_clear(Table &t);
  bool full(int rc); // true when rc is an acceptable MDBX_TXN_FULL
  bool allow_reserve = true;
  bool publishing = false;  // a call that may publish the top-level model is running
  bool map_full_ok = false; // growth is disabled: MDBX_MAP_FULL is possible
};

// integrity check; returns the number of problems (or -1 and rc on failure)
struct ChkResult {
  int rc;
  size_t problems;
  Bytes text;
  uint64_t total_payload = 0, tables = 0, gc_pages = 0, unused = 0;
  uint64_t processed_pages = 0, used_pages = 0;
};
ChkResult run_chk(MDBX_env *env, unsigned flags = 0);
void copy_file(const Bytes &from, const Bytes &to);
Bytes read_file(const Bytes &path);
void write_file(const Bytes &path, const Bytes &data);
inline Bytes dxb(const EnvCfg &cfg, const Bytes &path) { return (cfg.flags & MDBX_NOSUBDIR) ? path : path + "/mdbx.dat"; }

// ------------------------------------------------------------- cursor oracle
// position inside the flattened sorted contents
using Flat = std::vector<std::pair<Bytes, Bytes>>;

} // namespace kit
