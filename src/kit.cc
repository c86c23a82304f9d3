#include "kit.hpp"
#include <algorithm>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>

namespace kit {

Bytes show(const Bytes &b) {
  char t[64];
  Bytes o;
  bool printable = !b.empty();
  for (unsigned char ch : b)
    if (ch < 32 || ch > 126)
      printable = false;
  if (printable && b.size() <= 40)
    return "'" + b + "'";
  snprintf(t, sizeof t, "[%zu:", b.size());
  o = t;
  size_t n = std::min<size_t>(b.size(), 12);
  for (size_t i = 0; i < n; ++i) {
    snprintf(t, sizeof t, "%02x", (unsigned char)b[i]);
    o += t;
  }
  if (b.size() > n) {
    uint64_t h = 0;
    for (unsigned char ch : b)
      h = h * 131 + ch;
    snprintf(t, sizeof t, "..#%04x", (unsigned)(h & 0xffff));
    o += t;
  }
  return o + "]";
}
const char *rcname(int rc) {
  switch (rc) {
#define X(n)                                                                                                           \
  case n:                                                                                                              \
    return #n;
    X(MDBX_SUCCESS) X(MDBX_RESULT_TRUE) X(MDBX_KEYEXIST) X(MDBX_NOTFOUND) X(MDBX_PAGE_NOTFOUND) X(MDBX_CORRUPTED)
    X(MDBX_PANIC) X(MDBX_VERSION_MISMATCH) X(MDBX_INVALID) X(MDBX_MAP_FULL) X(MDBX_DBS_FULL) X(MDBX_READERS_FULL)
    X(MDBX_TXN_FULL) X(MDBX_CURSOR_FULL) X(MDBX_PAGE_FULL) X(MDBX_UNABLE_EXTEND_MAPSIZE) X(MDBX_INCOMPATIBLE)
    X(MDBX_BAD_RSLOT) X(MDBX_BAD_TXN) X(MDBX_BAD_VALSIZE) X(MDBX_BAD_DBI) X(MDBX_PROBLEM) X(MDBX_BUSY) X(MDBX_EMULTIVAL)
    X(MDBX_EBADSIGN) X(MDBX_WANNA_RECOVERY) X(MDBX_EKEYMISMATCH) X(MDBX_TOO_LARGE) X(MDBX_THREAD_MISMATCH)
    X(MDBX_TXN_OVERLAPPING) X(MDBX_BACKLOG_DEPLETED) X(MDBX_DUPLICATED_CLK) X(MDBX_DANGLING_DBI) X(MDBX_OUSTED)
    X(MDBX_MVCC_RETARDED) X(MDBX_ENODATA) X(MDBX_EINVAL) X(MDBX_EACCESS) X(MDBX_ENOMEM) X(MDBX_EROFS) X(MDBX_ENOSYS)
    X(MDBX_EIO) X(MDBX_EPERM) X(MDBX_EINTR) X(MDBX_ENOFILE) X(MDBX_LAGGARD_READER)
#undef X
  }
  static thread_local char buf[4][24];
  static thread_local int k;
  k = (k + 1) & 3;
  snprintf(buf[k], sizeof buf[k], "rc=%d", rc);
  return buf[k];
}
Bytes opname(MDBX_cursor_op op) {
  static const char *n[] = {"FIRST", "FIRST_DUP", "GET_BOTH", "GET_BOTH_RANGE", "GET_CURRENT", "GET_MULTIPLE", "LAST",
                            "LAST_DUP", "NEXT", "NEXT_DUP", "NEXT_MULTIPLE", "NEXT_NODUP", "PREV", "PREV_DUP",
                            "PREV_NODUP", "SET", "SET_KEY", "SET_RANGE", "PREV_MULTIPLE", "SET_LOWERBOUND",
                            "SET_UPPERBOUND", "TO_KEY_LT", "TO_KEY_LE", "TO_KEY_EQ", "TO_KEY_GE", "TO_KEY_GT",
                            "TO_EXACT_KEY_VALUE_LT", "TO_EXACT_KEY_VALUE_LE", "TO_EXACT_KEY_VALUE_EQ",
                            "TO_EXACT_KEY_VALUE_GE", "TO_EXACT_KEY_VALUE_GT", "TO_PAIR_LT", "TO_PAIR_LE", "TO_PAIR_EQ",
                            "TO_PAIR_GE", "TO_PAIR_GT", "SEEK_AND_GET_MULTIPLE"};
  return (size_t)op < sizeof(n) / sizeof(n[0]) ? n[op] : "op" + std::to_string((int)op);
}

// ------------------------------------------------------------- order
int cmp_bytes(const Bytes &a, const Bytes &b) {
  size_t n = std::min(a.size(), b.size());
  for (size_t i = 0; i < n; ++i)
    if (a[i] != b[i])
      return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1;
  return a.size() < b.size() ? -1 : a.size() > b.size();
}
int cmp_rev(const Bytes &a, const Bytes &b) {
  size_t n = std::min(a.size(), b.size());
  for (size_t i = 1; i <= n; ++i) {
    unsigned char x = a[a.size() - i], y = b[b.size() - i];
    if (x != y)
      return x < y ? -1 : 1;
  }
  return a.size() < b.size() ? -1 : a.size() > b.size();
}
int cmp_int(const Bytes &a, const Bytes &b) {
  auto ld = [](const Bytes &x) {
    uint64_t v = 0;
    memcpy(&v, x.data(), std::min<size_t>(8, x.size())); // native little endian
    return v;
  };
  uint64_t x = ld(a), y = ld(b);
  return x < y ? -1 : x > y;
}
int cmp_key(unsigned flags, const Bytes &a, const Bytes &b) {
  return (flags & MDBX_REVERSEKEY) ? cmp_rev(a, b) : (flags & MDBX_INTEGERKEY) ? cmp_int(a, b) : cmp_bytes(a, b);
}
int cmp_val(unsigned flags, const Bytes &a, const Bytes &b) {
  return (flags & MDBX_INTEGERDUP) ? cmp_int(a, b) : (flags & MDBX_REVERSEDUP) ? cmp_rev(a, b) : cmp_bytes(a, b);
}

// ------------------------------------------------------------- model
size_t MTable::vpos(const std::vector<Bytes> &v, const Bytes &x, bool &exact) const {
  size_t lo = 0, hi = v.size();
  while (lo < hi) {
    size_t mid = (lo + hi) / 2;
    int d = cmp_val(flags, v[mid], x);
    if (d < 0)
      lo = mid + 1;
    else
      hi = mid;
  }
  exact = lo < v.size() && cmp_val(flags, v[lo], x) == 0;
  return lo;
}
bool MTable::has(const Bytes &k, const Bytes &v) const {
  auto it = m.find(k);
  if (it == m.end())
    return false;
  if (!dup())
    return it->second[0] == v;
  bool e;
  vpos(it->second, v, e);
  return e;
}
const Bytes *MTable::get(const Bytes &k) const {
  auto it = m.find(k);
  return it == m.end() ? nullptr : &it->second[0];
}
void MTable::set(const Bytes &k, const Bytes &v) {
  auto &vec = m[k];
  items -= vec.size();
  vec.assign(1, v);
  items += 1;
}
bool MTable::add(const Bytes &k, const Bytes &v) {
  auto &vec = m[k];
  if (!dup()) {
    items += vec.empty();
    vec.assign(1, v);
    return true;
  }
  bool e;
  size_t p = vpos(vec, v, e);
  if (e)
    return false;
  vec.insert(vec.begin() + p, v);
  ++items;
  return true;
}
bool MTable::del(const Bytes &k) {
  auto it = m.find(k);
  if (it == m.end())
    return false;
  items -= it->second.size();
  m.erase(it);
  return true;
}
bool MTable::del(const Bytes &k, const Bytes &v) {
  auto it = m.find(k);
  if (it == m.end())
    return false;
  if (!dup()) {
    if (it->second[0] != v)
      return false;
    m.erase(it);
    --items;
    return true;
  }
  bool e;
  size_t p = vpos(it->second, v, e);
  if (!e)
    return false;
  it->second.erase(it->second.begin() + p);
  --items;
  if (it->second.empty())
    m.erase(it);
  return true;
}
std::vector<std::pair<Bytes, Bytes>> MTable::flat() const {
  std::vector<std::pair<Bytes, Bytes>> r;
  r.reserve(items);
  for (auto &e : m)
    for (auto &v : e.second)
      r.emplace_back(e.first, v);
  return r;
}
MTable &Model::rw(const Bytes &name) {
  TP &p = t.at(name);
  if (p.use_count() > 1)
    p = std::make_shared<MTable>(*p);
  return *p;
}

// ------------------------------------------------------------- environment
Bytes EnvCfg::describe() const {
  std::ostringstream o;
  o << "ps=" << ps << " flags=";
  struct {
    unsigned f;
    const char *n;
  } fl[] = {{MDBX_WRITEMAP, "WRITEMAP"},       {MDBX_NOSUBDIR, "NOSUBDIR"},   {MDBX_LIFORECLAIM, "LIFO"},
            {MDBX_NOMEMINIT, "NOMEMINIT"},     {MDBX_NORDAHEAD, "NORDAHEAD"}, {MDBX_NOSTICKYTHREADS, "NOSTICKY"},
            {MDBX_PAGEPERTURB, "PAGEPERTURB"}, {MDBX_EXCLUSIVE, "EXCLUSIVE"}, {MDBX_NOMETASYNC, "NOMETASYNC"},
            {MDBX_VALIDATION, "VALIDATION"}};
  for (auto &f : fl)
    if (flags & f.f)
      o << f.n << "|";
  unsigned s = flags & (MDBX_SAFE_NOSYNC | MDBX_UTTERLY_NOSYNC);
  o << (s == MDBX_UTTERLY_NOSYNC ? "UTTERLY_NOSYNC" : s == MDBX_SAFE_NOSYNC ? "SAFE_NOSYNC" : "DURABLE/META");
  o << " geo=" << lower << "/" << now << "/" << upper << "/" << growth << "/" << shrink;
  for (auto &p : opts)
    o << " opt" << (int)p.first << "=" << p.second;
  return o.str();
}
EnvCfg gen_cfg(Ctx &c, const CfgReq &r) {
  EnvCfg g;
  static const unsigned PS[] = {4096, 256, 512, 1024, 2048, 8192, 16384, 32768, 65536};
  g.ps = PS[r.small_pages ? c.weighted({20, 26, 20, 12, 6, 5, 3, 2, 6}) : c.weighted({40, 10, 8, 8, 8, 8, 6, 6, 6})];
  if (r.allow_writemap && c.chance(1, 4))
    g.flags |= MDBX_WRITEMAP;
  if (c.chance(1, 3))
    g.flags |= MDBX_LIFORECLAIM;
  if (c.chance(1, 4))
    g.flags |= MDBX_NOMEMINIT;
  if (c.chance(1, 4))
    g.flags |= MDBX_NORDAHEAD;
  if (c.chance(1, 4))
    g.flags |= MDBX_NOSTICKYTHREADS;
  if (c.chance(1, 6))
    g.flags |= MDBX_PAGEPERTURB;
  if (c.chance(1, 4))
    g.flags |= MDBX_NOSUBDIR;
  if (c.chance(1, 5))
    g.flags |= MDBX_EXCLUSIVE;
  if (c.chance(1, 5))
    g.flags |= MDBX_VALIDATION;
  if (r.sync_modes)
    switch (c.weighted({4, 2, 3, 3})) {
    case 1:
      g.flags |= MDBX_NOMETASYNC;
      break;
    case 2:
      g.flags |= MDBX_SAFE_NOSYNC;
      break;
    case 3:
      g.flags |= MDBX_UTTERLY_NOSYNC;
      break;
    }
  g.upper = r.upper;
  if (g.ps == 256)
    g.upper = std::min<size_t>(r.upper, 48u << 20);
  switch (c.weighted({3, 3, 2, 2})) {
  case 0:
    g.lower = -1;
    break;
  case 1:
    g.lower = std::max<intptr_t>(16384, 16 * g.ps), g.growth = std::max<intptr_t>(4096, g.ps * 4),
    g.shrink = g.growth * 2;
    break;
  case 2:
    g.lower = std::max<intptr_t>(16384, 16 * g.ps), g.growth = 1 << 18, g.shrink = 1 << 18;
    break;
  case 3:
    g.lower = 1 << 20, g.growth = 1 << 20, g.shrink = 0;
    break;
  }
  if (r.tuning && c.chance(2, 3)) {
    auto opt = [&](MDBX_option_t o, uint64_t v) { g.opts.emplace_back(o, v); };
    if (r.dp_limit && c.chance(1, 3) && !(g.flags & MDBX_WRITEMAP)) {
      opt(MDBX_opt_txn_dp_limit, 128 + c.below(130));
      g.small_dp = true;
    }
    if (c.chance(1, 5))
      opt(MDBX_opt_txn_dp_initial, c.one<uint64_t>({1024, 128, 300}));
    if (c.chance(1, 4))
      opt(MDBX_opt_spill_max_denominator, c.one<uint64_t>({8, 0, 1, 2, 3, 64, 255}));
    if (c.chance(1, 4))
      opt(MDBX_opt_spill_min_denominator, c.one<uint64_t>({8, 0, 1, 2, 16, 255}));
    if (c.chance(1, 4))
      opt(MDBX_opt_spill_parent4child_denominator, c.one<uint64_t>({0, 1, 2, 7, 255}));
    if (c.chance(1, 4))
      opt(MDBX_opt_loose_limit, c.one<uint64_t>({64, 0, 1, 2, 255}));
    if (c.chance(1, 4))
      opt(MDBX_opt_dp_reserve_limit, c.one<uint64_t>({1024, 0, 1, 10}));
    if (c.chance(1, 4))
      opt(MDBX_opt_rp_augment_limit, c.one<uint64_t>({4096, 0, 1, 4, 50, 1000000}));
    if (c.chance(1, 4))
      opt(MDBX_opt_merge_threshold, c.one<uint64_t>({32768, 8192, 12000, 16384, 25000}));
    if (c.chance(1, 4))
      opt(MDBX_opt_prefer_waf_insteadof_balance, c.below(2));
    if (c.chance(1, 4))
      opt(MDBX_opt_subpage_limit, c.one<uint64_t>({65535, 0, 1, 5000, 20000, 40000}));
    if (c.chance(1, 4))
      opt(MDBX_opt_subpage_room_threshold, c.one<uint64_t>({0, 1, 2000, 20000, 65535}));
    if (c.chance(1, 4))
      opt(MDBX_opt_subpage_reserve_prereq, c.one<uint64_t>({27525, 0, 1, 10000, 65535}));
    if (c.chance(1, 4))
      opt(MDBX_opt_subpage_reserve_limit, c.one<uint64_t>({2753, 0, 1, 20000, 65535}));
    if (c.chance(1, 4))
      opt(MDBX_opt_split_reserve, c.one<uint64_t>({0, 1, 3000, 10000, 20000, 32768}));
    if (c.chance(1, 5))
      opt(MDBX_opt_writethrough_threshold, c.one<uint64_t>({2, 0, 1, 1000000}));
    if (c.chance(1, 5))
      opt(MDBX_opt_prefault_write_enable, c.below(2));
  }
  return g;
}

Env::~Env() {
  if (env) {
    mdbx_env_close_ex(env, true);
    env = nullptr;
  }
}
int Env::close(bool dont_sync) {
  int rc = mdbx_env_close_ex(env, dont_sync);
  env = nullptr;
  return rc;
}
int Env::open(Ctx &c, const Bytes &p, const EnvCfg &g, unsigned extra, bool set_geo) {
  path = p;
  cfg = g;
  int rc = mdbx_env_create(&env);
  if (rc)
    return rc;
  do {
    if ((rc = mdbx_env_set_option(env, MDBX_opt_max_db, g.max_db)))
      break;
    if (g.max_readers && (rc = mdbx_env_set_option(env, MDBX_opt_max_readers, g.max_readers)))
      break;
    if (set_geo && (rc = mdbx_env_set_geometry(env, g.lower, g.now, g.upper, g.growth, g.shrink, g.ps)))
      break;
    for (auto &o : g.opts)
      if ((rc = mdbx_env_set_option(env, o.first, o.second))) {
        TR(c, "set_option(%d,%llu) -> %s", (int)o.first, (unsigned long long)o.second, rcname(rc));
        break;
      }
    if (rc)
      break;
    rc = mdbx_env_open(env, path.c_str(), (MDBX_env_flags_t)(g.flags | extra), 0600);
  } while (0);
  if (rc) {
    mdbx_env_close(env);
    env = nullptr;
  }
  return rc;
}

// ------------------------------------------------------------- domain
static Bytes bulk_bytes(uint64_t seed, size_t n) {
  vf::Bulk b(seed);
  Bytes s(n, 0);
  for (size_t i = 0; i < n;) {
    uint64_t x = b.next();
    for (int j = 0; j < 8 && i < n; ++j, ++i)
      s[i] = (char)(x >> (j * 8));
  }
  return s;
}
static Bytes int_bytes(uint64_t v, size_t n) {
  Bytes s(n, 0);
  memcpy(&s[0], &v, n);
  return s;
}
static uint64_t spread_int(uint64_t id, int style, unsigned bytes, unsigned salt) {
  uint64_t top = bytes == 8 ? ~0ull : 0xffffffffull;
  switch (style % 5) {
  case 0:
    return id;
  case 1: { // around the sign bit and the ends
    static const uint64_t base[] = {0, 0x7ffffff0ull, 0xfffffff0ull, 0x7fffffffffffff00ull, 0x100000000ull, ~0ull - 64};
    uint64_t b = base[id % 6] + id / 6;
    return b & top;
  }
  case 2:
    return (top - id) & top;
  case 3: {
    uint64_t x = id * 1000003 + salt;
    return vf::Rng::mix(x) & top;
  }
  default:
    return (id << (bytes * 8 - 12)) & top;
  }
}
Bytes Domain::key_of(uint64_t id) const {
  char t[64];
  if (flags & MDBX_INTEGERKEY)
    return int_bytes(spread_int(id, kstyle, klen, salt), klen);
  Bytes k;
  vf::Bulk b(id * 77777 + salt);
  switch (kstyle) {
  case 0:
    snprintf(t, sizeof t, "k%05u", (unsigned)id);
    k = t;
    break;
  case 1: { // hash bytes, variable length
    size_t caps[] = {4, 8, 20, kmax / 2 + 1, kmax};
    size_t cap = caps[b.below(5)];
    size_t n = b.below(std::min(cap, kmax) + 1);
    k = bulk_bytes(id * 31 + salt, n);
    break;
  }
  case 2: { // long common prefix
    snprintf(t, sizeof t, "%06u", (unsigned)id);
    size_t n = std::max<size_t>(6, kmax > 200 ? 100 + salt % 100 : kmax * 3 / 4);
    n = std::min(n, kmax);
    k = Bytes(n > 6 ? n - 6 : 0, 'p') + t;
    if (k.size() > kmax)
      k = k.substr(k.size() - kmax);
    break;
  }
  case 3: { // dense short binary, including the empty key
    uint64_t x = id;
    while (x) {
      --x;
      k.insert(k.begin(), (char)((x % 5) * 63));
      x /= 5;
    }
    break;
  }
  case 4: { // keys of maximal and near-maximal length
    snprintf(t, sizeof t, "%06u", (unsigned)id);
    size_t n = kmax - b.below(4);
    k = Bytes(t) + Bytes(n > 6 ? n - 6 : 0, (char)('a' + id % 7));
    if (k.size() > kmax)
      k.resize(kmax);
    break;
  }
  case 5: { // number spelled backwards (interesting for reverse order)
    snprintf(t, sizeof t, "%u", (unsigned)id);
    k = t;
    std::reverse(k.begin(), k.end());
    k += Bytes(b.below(3), 'x');
    break;
  }
  default: { // prefixes of each other
    size_t n = id % 37;
    k = Bytes(n, 'a');
    if (id / 37)
      k += (char)('a' + id / 37 % 20);
    break;
  }
  }
  if (k.size() > kmax)
    k.resize(kmax);
  return k;
}
Bytes Domain::val_of(uint64_t id) const {
  if (flags & MDBX_INTEGERDUP)
    return int_bytes(spread_int(id, vstyle, vlen, salt + 5), vlen);
  vf::Bulk b(id * 991 + salt + 13);
  if (flags & MDBX_DUPFIXED) {
    Bytes v(vlen, 0);
    switch (vstyle % 3) {
    case 0:
      for (unsigned i = 0; i < vlen && i < 4; ++i)
        v[i] = (char)(id >> (8 * (std::min(vlen, 4u) - 1 - i)));
      break;
    case 1:
      for (unsigned i = 0; i < vlen && i < 4; ++i)
        v[vlen - 1 - i] = (char)(id >> (8 * i));
      break;
    default:
      v = bulk_bytes(id * 7 + salt, vlen);
    }
    return v;
  }
  char t[32];
  Bytes v;
  switch (vstyle) {
  case 0:
    snprintf(t, sizeof t, "v%04u", (unsigned)id);
    v = t;
    break;
  case 1: {
    size_t caps[] = {4, 8, 20, vmax / 2 + 1, vmax};
    size_t cap = caps[b.below(5)];
    v = bulk_bytes(id * 17 + salt, b.below(std::min(cap, vmax) + 1));
    break;
  }
  case 2: {
    snprintf(t, sizeof t, "%05u", (unsigned)id);
    size_t n = std::min<size_t>(vmax, 40 + salt % 60);
    v = Bytes(n > 5 ? n - 5 : 0, 'q') + t;
    break;
  }
  case 3: { // dense short, including empty
    uint64_t x = id;
    while (x) {
      --x;
      v.insert(v.begin(), (char)((x % 4) * 85));
      x /= 4;
    }
    break;
  }
  default: { // near maximal
    snprintf(t, sizeof t, "%05u", (unsigned)id);
    size_t n = vmax - b.below(4);
    v = Bytes(t) + Bytes(n > 5 ? n - 5 : 0, 'z');
  }
  }
  if (v.size() > vmax)
    v.resize(vmax);
  return v;
}
Bytes Domain::gen_val(Ctx &c) const {
  if (flags & MDBX_DUPSORT)
    return val_of(c.below(nvals));
  size_t n = 0;
  size_t page_payload = ps - 20;
  switch (c.weighted({30, 20, 14, 10, big ? (big > 1 ? 24u : 8u) : 0u, big ? 6u : 0u, big > 1 ? 3u : (big ? 1u : 0u)})) {
  case 0:
    n = c.below(16);
    break;
  case 1:
    n = c.below(ps / 8 + 1);
    break;
  case 2:
    n = c.below(ps / 3 + 1);
    break;
  case 3: // around the limit of in-page storage
    n = ps / 2 - 30 + c.below(36);
    break;
  case 4: // one to four pages
    n = ps / 2 + c.below(ps * 7 / 2);
    break;
  case 5: { // around page multiples
    size_t k = 1 + c.below(4);
    n = page_payload + (k - 1) * ps - 4 + c.below(9);
    break;
  }
  case 6:
    n = c.below(ps * (ps > 8192 ? 8 : 40));
    break;
  }
  uint64_t s = c.below(1u << 16);
  if (n <= 8) {
    Bytes v = int_bytes(s * 0x9E3779B97F4A7C15ull, 8);
    return v.substr(0, n);
  }
  return bulk_bytes(s + 1, n);
}
Bytes Domain::gen_key_for(Ctx &c, const MTable &t) const {
  if (t.m.empty() || c.chance(1, 3))
    return gen_key(c);
  uint64_t id = c.below(nkeys);
  Bytes k = key_of(id);
  auto it = t.m.lower_bound(k);
  if (it == t.m.end())
    it = std::prev(t.m.end());
  return it->first;
}
Bytes Domain::gen_val_for(Ctx &c, const MTable &t, const Bytes &key) const {
  auto it = t.m.find(key);
  if (it == t.m.end() || c.chance(1, 3))
    return gen_val(c);
  if (!(flags & MDBX_DUPSORT))
    return it->second[0];
  return it->second[c.below(it->second.size())];
}
Bytes Domain::describe() const {
  std::ostringstream o;
  o << "flags=" << (flags & MDBX_REVERSEKEY ? "R" : "") << (flags & MDBX_INTEGERKEY ? "I" : "")
    << (flags & MDBX_DUPSORT ? "D" : "") << (flags & MDBX_DUPFIXED ? "F" : "") << (flags & MDBX_INTEGERDUP ? "i" : "")
    << (flags & MDBX_REVERSEDUP ? "r" : "") << " kstyle=" << kstyle << " vstyle=" << vstyle << " nkeys=" << nkeys
    << " nvals=" << nvals << " klen=" << klen << " vlen=" << vlen << " big=" << big;
  return o.str();
}
unsigned gen_table_flags(Ctx &c, int kind) {
  unsigned f = 0;
  switch (c.weighted({5, 2, 3})) {
  case 1:
    f |= MDBX_REVERSEKEY;
    break;
  case 2:
    f |= MDBX_INTEGERKEY;
    break;
  }
  bool dup = kind == 2 || (kind == 0 && c.flip());
  if (dup) {
    f |= MDBX_DUPSORT;
    switch (c.weighted({4, 3, 3, 2, 1, 1})) {
    case 1:
      f |= MDBX_DUPFIXED;
      break;
    case 2:
      f |= MDBX_DUPFIXED | MDBX_INTEGERDUP;
      break;
    case 3:
      f |= MDBX_REVERSEDUP;
      break;
    case 4:
      f |= MDBX_DUPFIXED | MDBX_REVERSEDUP;
      break;
    case 5:
      f |= MDBX_DUPFIXED;
      break;
    }
  }
  return f;
}
Domain gen_domain(Ctx &c, unsigned flags, unsigned ps, unsigned max_keys) {
  Domain d;
  d.flags = flags;
  d.ps = ps;
  d.kmax = mdbx_limits_keysize_max(ps, (MDBX_db_flags_t)flags);
  d.vmax = mdbx_limits_valsize_max(ps, (MDBX_db_flags_t)flags);
  d.vmin = mdbx_limits_valsize_min((MDBX_db_flags_t)flags);
  d.kstyle = (flags & MDBX_INTEGERKEY) ? c.below(5) : c.weighted({5, 3, 2, 2, 2, 2, 1});
  d.klen = c.flip() ? 8 : 4;
  static const unsigned NK[] = {12, 3, 40, 120, 400, 1200};
  d.nkeys = std::min<unsigned>(max_keys, NK[c.weighted({3, 1, 4, 5, 4, 3})]);
  if (d.kstyle == 4)
    d.nkeys = std::min(d.nkeys, 400u);
  static const unsigned NV[] = {6, 2, 20, 80, 300, 1000};
  d.nvals = NV[c.weighted({3, 2, 4, 4, 2, 1})];
  if (flags & MDBX_DUPSORT)
    d.nkeys = std::min(d.nkeys, d.nvals >= 80 ? 60u : 400u);
  d.vstyle = c.weighted({4, 3, 2, 2, 1});
  if (flags & MDBX_INTEGERDUP)
    d.vlen = c.flip() ? 8 : 4;
  else if (flags & MDBX_DUPFIXED) {
    unsigned m = (unsigned)d.vmax;
    unsigned opts[] = {8, 2, 3, 4, 7, 16, 33, m / 3, m - 1, m};
    d.vlen = opts[c.below(10)];
    d.vlen = std::max(2u, std::min(d.vlen, m));
  }
  d.salt = c.below(1000);
  d.big = c.weighted({3, 3, 1});
  return d;
}

// ------------------------------------------------------------- files
Bytes read_file(const Bytes &path) {
  std::ifstream in(path, std::ios::binary);
  std::stringstream ss;
  ss << in.rdbuf();
  return ss.str();
}
void write_file(const Bytes &path, const Bytes &data) {
  int fd = ::open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  size_t off = 0;
  while (off < data.size()) {
    ssize_t n = ::write(fd, data.data() + off, data.size() - off);
    if (n <= 0)
      break;
    off += n;
  }
  ::close(fd);
}
void copy_file(const Bytes &from, const Bytes &to) { write_file(to, read_file(from)); }

// ------------------------------------------------------------- integrity checker
struct ChkUser : MDBX_chk_context_t {
  Bytes text;
  size_t issues = 0;
};
static void chk_issue(MDBX_chk_context_t *ctx, const char *object, uint64_t entry, const char *issue, const char *extra,
                      va_list ap) {
  ChkUser *u = static_cast<ChkUser *>(ctx);
  u->issues++;
  if (u->text.size() < 2000) {
    char b[1024] = "";
    if (extra && *extra)
      vsnprintf(b, sizeof b, extra, ap);
    u->text += Bytes(object ? object : "?") + " #" + std::to_string(entry) + ": " + (issue ? issue : "") + " " + b + "; ";
  }
}
ChkResult run_chk(MDBX_env *env, unsigned flags) {
  ChkUser u;
  memset(static_cast<MDBX_chk_context_t *>(&u), 0, sizeof(MDBX_chk_context_t));
  MDBX_chk_callbacks_t cb;
  memset(&cb, 0, sizeof cb);
  cb.issue = chk_issue;
  ChkResult r;
  r.rc = mdbx_env_chk(env, &cb, &u, (MDBX_chk_flags_t)flags, MDBX_chk_result, 0);
  r.problems = u.result.total_problems;
  r.text = u.text;
  r.total_payload = u.result.total_payload_bytes;
  r.tables = u.result.table_total;
  r.gc_pages = u.result.gc_pages;
  r.unused = u.result.unused_pages;
  r.processed_pages = u.result.processed_pages;
  r.used_pages = u.result.alloc_pages;
  return r;
}

// ------------------------------------------------------------- Db
void Db::must(int rc, const char *what) {
  if (rc != MDBX_SUCCESS)
    c.fail("%s returned %s (%s)", what, rcname(rc), mdbx_strerror(rc));
}
void Db::expect(int rc, int want, const char *what) {
  if (rc != want)
    c.fail("%s returned %s, expected %s", what, rcname(rc), rcname(want));
}
bool Db::full(int rc) {
  if (rc == MDBX_TXN_FULL && cfg.small_dp) {
    txn_full = true;
    c.label("txn-full");
    return true;
  }
  if (rc == MDBX_MAP_FULL && map_full_ok) {
    txn_full = true;
    c.label("map-full");
    return true;
  }
  return false;
}
void Db::open_env(const EnvCfg &g) {
  int rc = Env::open(c, c.dir + "/db", g, MDBX_ENV_DEFAULTS);
  TR(c, "open %s -> %s", g.describe().c_str(), rcname(rc));
  must(rc, "mdbx_env_open");
}
void Db::make_tables(unsigned n, int kind, unsigned max_keys, bool allow_main) {
  bool main_only = allow_main && c.chance(1, 6);
  if (main_only)
    n = 1;
  MDBX_txn *t;
  must(mdbx_txn_begin(env, nullptr, MDBX_TXN_READWRITE, &t), "begin");
  for (unsigned i = 0; i < n; ++i) {
    Table tb;
    unsigned f = gen_table_flags(c, kind);
    tb.dom = gen_domain(c, f, cfg.ps, max_keys);
    tb.name = main_only ? "" : "t" + std::to_string(i);
    must(mdbx_dbi_open(t, main_only ? nullptr : tb.name.c_str(), (MDBX_db_flags_t)(f | MDBX_CREATE), &tb.dbi),
         "mdbx_dbi_open(CREATE)");
    TR(c, "table %s: %s", show(tb.name).c_str(), tb.dom.describe().c_str());
    st[0].t[tb.name] = std::make_shared<MTable>(f);
    tabs.push_back(tb);
  }
  must(mdbx_txn_commit(t), "commit of table creation");
}
void Db::reopen_tables() {
  MDBX_txn *t;
  must(mdbx_txn_begin(env, nullptr, MDBX_TXN_RDONLY, &t), "begin(RDONLY)");
  for (auto &tb : tabs) {
    int rc = mdbx_dbi_open(t, tb.name.empty() ? nullptr : tb.name.c_str(), MDBX_DB_ACCEDE, &tb.dbi);
    must(rc, "mdbx_dbi_open(ACCEDE) after reopening");
    unsigned fl = 0, state = 0;
    must(mdbx_dbi_flags_ex(t, tb.dbi, &fl, &state), "mdbx_dbi_flags_ex");
    if ((fl & 0xffff) != tb.dom.flags)
      c.fail("flags of table '%s' after reopening: 0x%x, expected 0x%x", tb.name.c_str(), fl, tb.dom.flags);
  }
  must(mdbx_txn_commit(t), "commit of a read transaction");
}
void Db::reopen() {
  must(close(), "mdbx_env_close");
  EnvCfg g = cfg;
  if (c.chance(1, 3))
    g.flags ^= MDBX_LIFORECLAIM;
  if (c.chance(1, 4) && !g.small_dp)
    g.flags ^= MDBX_WRITEMAP;
  if (c.chance(1, 4))
    g.flags ^= MDBX_NOMEMINIT;
  int rc = Env::open(c, path, g, 0, c.flip());
  TR(c, "reopen %s -> %s", g.describe().c_str(), rcname(rc));
  must(rc, "mdbx_env_open (reopen)");
  c.label("reopen");
  reopen_tables();
}
void Db::begin(unsigned flags) {
  MDBX_txn *t;
  must(mdbx_txn_begin(env, nullptr, (MDBX_txn_flags_t)flags, &t), "mdbx_txn_begin");
  TR(c, "begin -> txn %llu", (unsigned long long)mdbx_txn_id(t));
  tx.push_back(t);
  st.push_back(st.back());
  txn_full = false;
}
void Db::begin_nested() {
  MDBX_txn *t;
  int rc = mdbx_txn_begin(env, tx.back(), MDBX_TXN_READWRITE, &t);
  TR(c, "begin nested (depth %zu) -> %s", tx.size() + 1, rcname(rc));
  if (full(rc))
    return;
  must(rc, "mdbx_txn_begin(nested)");
  tx.push_back(t);
  st.push_back(st.back());
  c.label("nested-begin");
}
void Db::commit() {
  bool nested = tx.size() > 1;
  publishing = !nested;
  int rc = mdbx_txn_commit(tx.back());
  publishing = false;
  TR(c, "commit%s -> %s", nested ? " nested" : "", rcname(rc));
  tx.pop_back();
  if (full(rc)) { // the commit itself ran out of the dirty-page budget
    st.pop_back();
    if (nested) { // the parent may be unusable as well
      while (!tx.empty())
        abort();
    }
    return;
  }
  must(rc, nested ? "mdbx_txn_commit(nested)" : "mdbx_txn_commit");
  Model m = std::move(st.back());
  st.pop_back();
  st.back() = std::move(m);
  c.label(nested ? "nested-commit" : "commit");
}
void Db::abort() {
  int rc = mdbx_txn_abort(tx.back());
  TR(c, "abort%s -> %s", tx.size() > 1 ? " nested" : "", rcname(rc));
  must(rc, "mdbx_txn_abort");
  c.label(tx.size() > 1 ? "nested-abort" : "abort");
  tx.pop_back();
  st.pop_back();
  txn_full = false;
}
void Db::close_all() {
  while (!tx.empty())
    abort();
  if (env)
    must(close(), "mdbx_env_close");
}
void Db::check_table(MDBX_txn *t, MDBX_dbi dbi, const MTable &m, const char *where, bool backwards) {
  MDBX_cursor *cur;
  must(mdbx_cursor_open(t, dbi, &cur), "mdbx_cursor_open");
  MDBX_val k{}, v{};
  uint64_t n = 0;
  auto bad = [&](const char *what, const Bytes &wk, const Bytes &wv) {
    Bytes gk = B(k), gv = B(v);
    c.fail("%s: %s at item %llu of %llu: got %s -> %s, expected %s -> %s", where, what, (unsigned long long)n,
           (unsigned long long)m.items, show(gk).c_str(), show(gv).c_str(), show(wk).c_str(), show(wv).c_str());
  };
  if (!backwards) {
    int rc = mdbx_cursor_get(cur, &k, &v, MDBX_FIRST);
    for (auto &e : m.m)
      for (auto &x : e.second) {
        if (rc != MDBX_SUCCESS)
          c.fail("%s: scan ended with %s after %llu of %llu items, next expected %s -> %s", where, rcname(rc),
                 (unsigned long long)n, (unsigned long long)m.items, show(e.first).c_str(), show(x).c_str());
        if (!eqv(k, e.first) || !eqv(v, x))
          bad("wrong item in forward scan", e.first, x);
        ++n;
        rc = mdbx_cursor_get(cur, &k, &v, MDBX_NEXT);
      }
    if (rc != MDBX_NOTFOUND)
      c.fail("%s: scan does not end after %llu items: %s, extra item %s", where, (unsigned long long)n, rcname(rc),
             rc == 0 ? show(B(k)).c_str() : "-");
  } else {
    int rc = mdbx_cursor_get(cur, &k, &v, MDBX_LAST);
    for (auto e = m.m.rbegin(); e != m.m.rend(); ++e)
      for (auto x = e->second.rbegin(); x != e->second.rend(); ++x) {
        if (rc != MDBX_SUCCESS)
          c.fail("%s: backward scan ended with %s after %llu of %llu items", where, rcname(rc), (unsigned long long)n,
                 (unsigned long long)m.items);
        if (!eqv(k, e->first) || !eqv(v, *x))
          bad("wrong item in backward scan", e->first, *x);
        ++n;
        rc = mdbx_cursor_get(cur, &k, &v, MDBX_PREV);
      }
    if (rc != MDBX_NOTFOUND)
      c.fail("%s: backward scan does not end: %s", where, rcname(rc));
  }
  mdbx_cursor_close(cur);
  MDBX_stat s;
  must(mdbx_dbi_stat(t, dbi, &s, sizeof s), "mdbx_dbi_stat");
  if (s.ms_entries != m.items)
    c.fail("%s: the table reports %llu items, it has %llu", where, (unsigned long long)s.ms_entries,
           (unsigned long long)m.items);
}
void Db::check_all(MDBX_txn *t, const Model &m, const char *where) {
  for (auto &tb : tabs)
    check_table(t, tb.dbi, *m.t.at(tb.name), (Bytes(where) + ", table " + tb.name).c_str(), false);
}
void Db::check_current(const char *where) { check_all(tx.back(), st.back(), where); }
void Db::check_committed(const char *where) {
  MDBX_txn *t;
  must(mdbx_txn_begin(env, nullptr, MDBX_TXN_RDONLY, &t), "mdbx_txn_begin(RDONLY)");
  check_all(t, st[0], where);
  must(mdbx_txn_abort(t), "abort of a read transaction");
}
void Db::env_chk(const char *where) {
  ChkResult r = run_chk(env);
  if (r.rc != MDBX_SUCCESS || r.problems)
    c.fail("%s: integrity check: rc %s, %zu problems: %s", where, rcname(r.rc), r.problems, r.text.c_str());
}

// ---- single operations
bool Db::op_put(Table &tb) {
  const MTable &m = cur().ro(tb.name);
  const bool dup = m.dup();
  struct Alt {
    unsigned flags;
    unsigned w;
    const char *n;
  };
  static const Alt single[] = {{MDBX_UPSERT, 30, "UPSERT"},
                               {MDBX_NOOVERWRITE, 12, "NOOVERWRITE"},
                               {MDBX_CURRENT, 10, "CURRENT"},
                               {MDBX_APPEND, 6, "APPEND"},
                               {MDBX_APPEND | MDBX_NOOVERWRITE, 2, "APPEND|NOOVERWRITE"},
                               {MDBX_RESERVE, 6, "RESERVE"},
                               {MDBX_RESERVE | MDBX_NOOVERWRITE, 2, "RESERVE|NOOVERWRITE"},
                               {MDBX_RESERVE | MDBX_CURRENT, 2, "RESERVE|CURRENT"}};
  static const Alt multi[] = {{MDBX_UPSERT, 40, "UPSERT"},
                              {MDBX_NODUPDATA, 10, "NODUPDATA"},
                              {MDBX_NOOVERWRITE, 6, "NOOVERWRITE"},
                              {MDBX_CURRENT, 4, "CURRENT"},
                              {MDBX_CURRENT | MDBX_NOOVERWRITE, 2, "CURRENT|NOOVERWRITE"},
                              {MDBX_CURRENT | MDBX_ALLDUPS, 2, "CURRENT|ALLDUPS"},
                              {MDBX_ALLDUPS, 2, "UPSERT|ALLDUPS"},
                              {MDBX_APPENDDUP, 6, "APPENDDUP"},
                              {MDBX_APPEND, 4, "APPEND"},
                              {MDBX_APPEND | MDBX_APPENDDUP, 3, "APPEND|APPENDDUP"}};
  const Alt *alts = dup ? multi : single;
  size_t na = dup ? sizeof(multi) / sizeof(Alt) : sizeof(single) / sizeof(Alt);
  std::vector<unsigned> w;
  for (size_t i = 0; i < na; ++i)
    w.push_back(alts[i].flags & MDBX_RESERVE && !allow_reserve ? 0 : alts[i].w);
  const Alt &a = alts[c.weighted(w)];
  Bytes key, val;
  if ((a.flags & MDBX_APPEND) && !m.m.empty() && c.chance(2, 3)) {
    // prefer a key not smaller than the last one
    key = tb.dom.gen_key(c);
    const Bytes &last = m.m.rbegin()->first;
    for (unsigned i = 0; i < 8 && cmp_key(tb.dom.flags, key, last) <= 0; ++i)
      key = tb.dom.gen_key(c);
  } else
    key = (a.flags & (MDBX_CURRENT | MDBX_ALLDUPS | MDBX_APPENDDUP)) ? tb.dom.gen_key_for(c, m) : tb.dom.gen_key(c);
  val = (dup && c.chance(1, 4)) ? tb.dom.gen_val_for(c, m, key) : tb.dom.gen_val(c);
  if ((a.flags & MDBX_APPENDDUP) && m.has(key) && c.chance(2, 3)) {
    const Bytes &last = m.m.at(key).back();
    for (unsigned i = 0; i < 8 && cmp_val(tb.dom.flags, val, last) <= 0; ++i)
      val = tb.dom.gen_val(c);
  }
  // ---- expected outcome
  const bool has = m.has(key);
  int want = MDBX_SUCCESS;
  enum { NONE, ADD, SET } eff = NONE;
  Bytes existing;
  const unsigned f = a.flags & ~MDBX_RESERVE;
  if ((f & MDBX_APPEND) && !m.m.empty() && cmp_key(tb.dom.flags, key, m.m.rbegin()->first) < 0)
    want = MDBX_EKEYMISMATCH;
  else if (!dup) {
    if ((f & MDBX_NOOVERWRITE) && has)
      want = MDBX_KEYEXIST, existing = *m.get(key);
    else if ((f & MDBX_CURRENT) && !has)
      want = MDBX_NOTFOUND;
    else
      eff = SET;
  } else {
    size_t nv = has ? m.m.at(key).size() : 0;
    if (f & MDBX_CURRENT) {
      if (!has)
        want = MDBX_NOTFOUND;
      else if ((f & MDBX_NOOVERWRITE) && nv > 1)
        want = MDBX_EMULTIVAL;
      else if (f & MDBX_NOOVERWRITE)
        want = MDBX_EINVAL; // senseless combination, refused
      else
        eff = SET;
    } else if ((f & MDBX_NOOVERWRITE) && has)
      want = MDBX_KEYEXIST, existing = *m.get(key);
    else if (f & MDBX_ALLDUPS)
      eff = SET;
    else if (m.has(key, val)) {
      if (f & MDBX_NODUPDATA)
        want = MDBX_KEYEXIST;
      else if (f & MDBX_APPENDDUP)
        want = MDBX_EKEYMISMATCH;
      if ((f & MDBX_APPENDDUP) && nv == 1)
        want = -1; // either "nothing to do" or a mismatch: not specified
    } else if ((f & MDBX_APPENDDUP) && has && cmp_val(tb.dom.flags, val, m.m.at(key).back()) < 0)
      want = MDBX_EKEYMISMATCH;
    else
      eff = ADD;
  }
  MDBX_val k = V(key), v = V(val);
  int rc = mdbx_put(txn(), tb.dbi, &k, &v, (MDBX_put_flags_t)a.flags);
  TR(c, "put %s %s -> %s %s = %s", tb.name.c_str(), show(key).c_str(), show(val).c_str(), a.n, rcname(rc));
  if (full(rc))
    return false;
  if (want == -1) {
    if (rc != MDBX_SUCCESS && rc != MDBX_EKEYMISMATCH)
      c.fail("put(%s) of an existing pair returned %s", a.n, rcname(rc));
    return true;
  }
  if (rc != want)
    c.fail("put(%s) %s in table %s returned %s, expected %s", a.n, show(key).c_str(), tb.name.c_str(), rcname(rc),
           rcname(want));
  if (want == MDBX_KEYEXIST && (f & MDBX_NOOVERWRITE) && !eqv(v, existing))
    c.fail("put(%s) of an existing key %s returned %s as the existing value instead of %s", a.n, show(key).c_str(),
           show(B(v)).c_str(), show(existing).c_str());
  if ((a.flags & MDBX_RESERVE) && rc == MDBX_SUCCESS) {
    if (v.iov_len != val.size())
      c.fail("put(RESERVE) reserved %zu bytes instead of %zu", v.iov_len, val.size());
    memcpy(v.iov_base, val.data(), val.size());
  }
  if (eff == SET)
    cur().rw(tb.name).set(key, val);
  else if (eff == ADD)
    cur().rw(tb.name).add(key, val);
  c.label(rc == MDBX_SUCCESS ? "put-ok" : "put-refused");
  return true;
}
bool Db::op_multi_put(Table &tb) {
  const MTable &m = cur().ro(tb.name);
  if (!(tb.dom.flags & MDBX_DUPFIXED))
    return op_put(tb);
  static const struct {
    unsigned f;
    unsigned w;
    const char *n;
  } alts[] = {{0, 12, "MULTIPLE"},
              {MDBX_NOOVERWRITE, 3, "MULTIPLE|NOOVERWRITE"},
              {MDBX_NODUPDATA, 3, "MULTIPLE|NODUPDATA"},
              {MDBX_ALLDUPS, 3, "MULTIPLE|ALLDUPS"},
              {MDBX_CURRENT | MDBX_ALLDUPS, 3, "MULTIPLE|CURRENT|ALLDUPS"}};
  auto &a = alts[c.weighted({12, 3, 3, 3, 3})];
  Bytes key = tb.dom.gen_key_for(c, m);
  size_t n = c.weighted({8, 1}) ? 0 : 1 + c.skewed(std::min<size_t>(60, 6000 / tb.dom.vlen + 2));
  Bytes arr;
  std::vector<Bytes> el;
  bool sorted = c.flip();
  for (size_t i = 0; i < n; ++i)
    el.push_back(tb.dom.gen_val(c));
  if (sorted)
    std::sort(el.begin(), el.end(), [&](auto &x, auto &y) { return cmp_val(tb.dom.flags, x, y) < 0; });
  for (auto &e : el)
    arr += e;
  // alignment: std::string heap data is 16-byte aligned; copy explicitly to be sure
  std::vector<uint64_t> al((arr.size() + 15) / 8);
  memcpy(al.data(), arr.data(), arr.size());
  MDBX_val k = V(key), v[2];
  v[0].iov_len = tb.dom.vlen;
  v[0].iov_base = al.data();
  v[1].iov_len = n;
  v[1].iov_base = nullptr;
  const bool has = m.has(key);
  int want = MDBX_SUCCESS;
  MTable tmp(0); // expectation built below
  size_t done = n;
  bool replace = false;
  std::vector<Bytes> add;
  if ((a.f & MDBX_NOOVERWRITE) && has)
    want = MDBX_KEYEXIST;
  else if ((a.f & MDBX_CURRENT) && !has)
    want = MDBX_NOTFOUND;
  else {
    replace = (a.f & MDBX_ALLDUPS) != 0;
    if (a.f & MDBX_NODUPDATA) {
      std::set<Bytes> seen;
      done = 0;
      for (auto &e : el) {
        if (m.has(key, e) || seen.count(e)) {
          want = MDBX_KEYEXIST;
          break;
        }
        seen.insert(e);
        add.push_back(e);
        ++done;
      }
    } else
      add = el;
  }
  if (n == 0 && want == MDBX_SUCCESS && replace && !(a.f & MDBX_CURRENT))
    return true; // replacing by nothing without CURRENT: unspecified, not tried
  int rc = mdbx_put(txn(), tb.dbi, &k, v, (MDBX_put_flags_t)(a.f | MDBX_MULTIPLE));
  TR(c, "put %s %s n=%zu %s = %s, done %zu", tb.name.c_str(), show(key).c_str(), n, a.n, rcname(rc), (size_t)v[1].iov_len);
  if (full(rc))
    return false;
  if (rc != want)
    c.fail("put(%s) of %zu values at %s returned %s, expected %s", a.n, n, show(key).c_str(), rcname(rc), rcname(want));
  if (rc == MDBX_SUCCESS && v[1].iov_len != done)
    c.fail("put(%s) of %zu values reports %zu stored, expected %zu", a.n, n, (size_t)v[1].iov_len, done);
  MTable &w = cur().rw(tb.name);
  if (want == MDBX_SUCCESS && replace)
    w.del(key);
  for (auto &e : add)
    w.add(key, e);
  c.label("put-multiple");
  return true;
}
bool Db::op_get(Table &tb) {
  const MTable &m = cur().ro(tb.name);
  Bytes key = tb.dom.gen_key_for(c, m);
  MDBX_val k = V(key), v{};
  switch (c.weighted({5, 3, 3})) {
  case 0: {
    int rc = mdbx_get(txn(), tb.dbi, &k, &v);
    TR(c, "get %s %s = %s", tb.name.c_str(), show(key).c_str(), rcname(rc));
    const Bytes *e = m.get(key);
    expect(rc, e ? MDBX_SUCCESS : MDBX_NOTFOUND, "mdbx_get");
    if (e && !eqv(v, *e))
      c.fail("mdbx_get(%s) returned %s, expected %s", show(key).c_str(), show(B(v)).c_str(), show(*e).c_str());
    break;
  }
  case 1: {
    size_t count = 77;
    int rc = mdbx_get_ex(txn(), tb.dbi, &k, &v, &count);
    TR(c, "get_ex %s %s = %s, count %zu", tb.name.c_str(), show(key).c_str(), rcname(rc), count);
    const Bytes *e = m.get(key);
    expect(rc, e ? MDBX_SUCCESS : MDBX_NOTFOUND, "mdbx_get_ex");
    size_t want = e ? m.m.at(key).size() : 0;
    if (count != want)
      c.fail("mdbx_get_ex(%s) reports %zu values, expected %zu", show(key).c_str(), count, want);
    if (e && (!eqv(v, *e) || !eqv(k, key)))
      c.fail("mdbx_get_ex(%s) returned %s -> %s, expected %s", show(key).c_str(), show(B(k)).c_str(),
             show(B(v)).c_str(), show(*e).c_str());
    break;
  }
  case 2: {
    // lower bound over pairs; without a value only keys are compared
    bool with_val = m.dup() && c.flip();
    Bytes val = with_val ? tb.dom.gen_val_for(c, m, key) : Bytes();
    if (with_val)
      v = V(val);
    if (with_val && !v.iov_base)
      with_val = false;
    int rc = mdbx_get_equal_or_great(txn(), tb.dbi, &k, &v);
    TR(c, "get_equal_or_great %s %s/%s = %s", tb.name.c_str(), show(key).c_str(), with_val ? show(val).c_str() : "-",
       rcname(rc));
    auto it = m.m.lower_bound(key);
    const Bytes *wk = nullptr, *wv = nullptr;
    bool exact = false;
    if (it != m.m.end()) {
      exact = cmp_key(tb.dom.flags, it->first, key) == 0;
      wk = &it->first, wv = &it->second[0];
      if (exact && m.dup()) {
        if (with_val) {
          bool e;
          size_t p = m.vpos(it->second, val, e);
          exact = e;
          if (p < it->second.size())
            wv = &it->second[p];
          else if (++it != m.m.end())
            wk = &it->first, wv = &it->second[0];
          else
            wk = nullptr;
        } else
          exact = false; // no value given: reported as inexact (observed, harmless)
      }
    }
    int want = !wk ? MDBX_NOTFOUND : exact ? MDBX_SUCCESS : MDBX_RESULT_TRUE;
    bool lax = wk && m.dup() && !with_val;
    if (lax ? (rc != MDBX_SUCCESS && rc != MDBX_RESULT_TRUE) : rc != want)
      c.fail("mdbx_get_equal_or_great(%s) returned %s, expected %s", show(key).c_str(), rcname(rc), rcname(want));
    if (wk && (!eqv(k, *wk) || !eqv(v, *wv)))
      c.fail("mdbx_get_equal_or_great(%s) returned %s -> %s, expected %s -> %s", show(key).c_str(), show(B(k)).c_str(),
             show(B(v)).c_str(), show(*wk).c_str(), show(*wv).c_str());
    break;
  }
  }
  return true;
}
bool Db::op_del(Table &tb) {
  const MTable &m = cur().ro(tb.name);
  Bytes key = tb.dom.gen_key_for(c, m);
  MDBX_val k = V(key), v;
  if (c.chance(m.dup() ? 3 : 1, 5)) {
    Bytes val = tb.dom.gen_val_for(c, m, key);
    v = V(val);
    bool has = m.has(key, val);
    int rc = mdbx_del(txn(), tb.dbi, &k, &v);
    TR(c, "del %s %s / %s = %s", tb.name.c_str(), show(key).c_str(), show(val).c_str(), rcname(rc));
    if (full(rc))
      return false;
    expect(rc, has ? MDBX_SUCCESS : MDBX_NOTFOUND, "mdbx_del(key,value)");
    if (has)
      cur().rw(tb.name).del(key, val);
  } else {
    bool has = m.has(key);
    int rc = mdbx_del(txn(), tb.dbi, &k, nullptr);
    TR(c, "del %s %s = %s", tb.name.c_str(), show(key).c_str(), rcname(rc));
    if (full(rc))
      return false;
    expect(rc, has ? MDBX_SUCCESS : MDBX_NOTFOUND, "mdbx_del(key)");
    if (has)
      cur().rw(tb.name).del(key);
  }
  c.label("del");
  return true;
}
static int preserve_to_string(void *ctx, MDBX_val *target, const void *src, size_t bytes) {
  Bytes *s = (Bytes *)ctx;
  s->assign((const char *)src, bytes);
  *target = V(*s);
  return MDBX_SUCCESS;
}
bool Db::op_replace(Table &tb) {
  const MTable &m = cur().ro(tb.name);
  Bytes key = tb.dom.gen_key_for(c, m);
  const bool has = m.has(key);
  const size_t nv = has ? m.m.at(key).size() : 0;
  MDBX_val k = V(key);
  Bytes keep;
  // kinds: 0 upsert, 1 CURRENT, 2 NOOVERWRITE, 3 delete (CURRENT, no new value), 4 one of several values
  int kind = c.weighted({3, 4, 2, 3, m.dup() ? 6u : 0u});
  if (kind == 0 && nv > 1)
    kind = 1; // upserting "the" value of a multi-value key is ambiguous; see the CURRENT form
  bool deletion = kind == 3 || (kind == 4 && c.chance(1, 3));
  Bytes nval = tb.dom.gen_val(c);
  if (!deletion && has && c.chance(1, 6))
    nval = tb.dom.gen_val_for(c, m, key);
  MDBX_val nw = V(nval), old{};
  Bytes sel;
  unsigned f = kind == 0 ? 0 : kind == 1 || kind == 3 ? MDBX_CURRENT : kind == 2 ? MDBX_NOOVERWRITE : MDBX_CURRENT | MDBX_NOOVERWRITE;
  if (kind == 4) {
    sel = tb.dom.gen_val_for(c, m, key);
    old = V(sel);
  }
  bool plain = kind != 4 && c.chance(1, 3); // mdbx_replace with a caller's buffer
  Bytes buf;
  bool small_buf = false;
  const Bytes prev = has ? m.m.at(key)[0] : Bytes();
  if (plain) {
    size_t n = c.chance(1, 3) && !prev.empty() ? c.below(prev.size()) : prev.size() + 16;
    small_buf = n < prev.size();
    buf.resize(std::max<size_t>(n, 1));
    small_buf = buf.size() < prev.size();
    old.iov_base = &buf[0];
    old.iov_len = buf.size();
  }
  int rc = plain ? mdbx_replace(txn(), tb.dbi, &k, deletion ? nullptr : &nw, &old, (MDBX_put_flags_t)f)
                 : mdbx_replace_ex(txn(), tb.dbi, &k, deletion ? nullptr : &nw, &old, (MDBX_put_flags_t)f,
                                   preserve_to_string, &keep);
  TR(c, "replace%s %s %s -> %s kind %d%s sel %s = %s", plain ? "" : "_ex", tb.name.c_str(), show(key).c_str(),
     deletion ? "(none)" : show(nval).c_str(), kind, small_buf ? " small buffer" : "", show(sel).c_str(), rcname(rc));
  if (full(rc))
    return false;
  if (kind == 4) {
    int want = m.has(key, sel) ? MDBX_SUCCESS : MDBX_NOTFOUND;
    expect(rc, want, "mdbx_replace(CURRENT|NOOVERWRITE)");
    if (rc == MDBX_SUCCESS) {
      MTable &w = cur().rw(tb.name);
      if (deletion)
        w.del(key, sel);
      else if (nval != sel) {
        w.del(key, sel);
        w.add(key, nval);
      }
    }
    c.label("replace-one-of-many");
    return true;
  }
  if (!has) {
    int want = (f & MDBX_CURRENT) ? MDBX_NOTFOUND : MDBX_SUCCESS;
    expect(rc, want, "mdbx_replace of a missing key");
    if (old.iov_base || old.iov_len)
      c.fail("mdbx_replace of a missing key reports a previous value of %zu bytes", (size_t)old.iov_len);
    if (rc == MDBX_SUCCESS)
      cur().rw(tb.name).add(key, nval);
    return true;
  }
  if (kind == 2) {
    expect(rc, MDBX_KEYEXIST, "mdbx_replace(NOOVERWRITE) of an existing key");
    if (!eqv(old, prev))
      c.fail("mdbx_replace(NOOVERWRITE) returned %s as the existing value, expected %s", show(B(old)).c_str(),
             show(prev).c_str());
    return true;
  }
  if (nv > 1) {
    expect(rc, MDBX_EMULTIVAL, "mdbx_replace(CURRENT) of a key with several values");
    return true;
  }
  if (small_buf && rc == MDBX_RESULT_TRUE) { // dirty page and the buffer was too small
    if (old.iov_len != prev.size())
      c.fail("mdbx_replace with a small buffer reports %zu bytes needed, expected %zu", (size_t)old.iov_len, prev.size());
    c.label("replace-small-buffer");
    return true;
  }
  must(rc, "mdbx_replace");
  if (!eqv(old, prev))
    c.fail("mdbx_replace returned %s as the previous value, expected %s", show(B(old)).c_str(), show(prev).c_str());
  if (deletion)
    cur().rw(tb.name).del(key);
  else
    cur().rw(tb.name).set(key, nval);
  c.label("replace");
  return true;
}
bool Db::op_bulk(Table &tb, unsigned max_items) {
  // a run of simple operations driven by few choices: order, direction, stride
  bool del = c.chance(1, 3);
  unsigned n = 1 + c.below(max_items);
  uint64_t start = c.below(tb.dom.nkeys), stride = c.one<uint64_t>({1, 1, 1, 2, 3, 7, (uint64_t)tb.dom.nkeys - 1});
  uint64_t vseed = c.below(1000);
  size_t vmaxlen = 1 + c.below(tb.dom.ps / 3);
  bool app = !del && c.chance(1, 6);
  bool dup = (tb.dom.flags & MDBX_DUPSORT) != 0;
  bool one_key = dup && c.chance(1, 2);
  TR(c, "bulk %s %s n=%u start=%llu stride=%llu vlen<%zu%s%s", del ? "del" : "put", tb.name.c_str(), n,
     (unsigned long long)start, (unsigned long long)stride, vmaxlen, app ? " append" : "", one_key ? " one-key" : "");
  MTable &w = cur().rw(tb.name);
  vf::Bulk b(vseed);
  for (unsigned i = 0; i < n; ++i) {
    uint64_t id = (start + i * stride) % tb.dom.nkeys;
    Bytes key = tb.dom.key_of(one_key ? start : id);
    MDBX_val k = V(key);
    if (del) {
      bool has = w.has(key);
      int rc;
      if (one_key) {
        Bytes val = tb.dom.val_of((vseed + i * stride) % tb.dom.nvals);
        MDBX_val v = V(val);
        has = w.has(key, val);
        rc = mdbx_del(txn(), tb.dbi, &k, &v);
        if (full(rc))
          return false;
        expect(rc, has ? MDBX_SUCCESS : MDBX_NOTFOUND, "mdbx_del(key,value) in a run");
        w.del(key, val);
      } else {
        rc = mdbx_del(txn(), tb.dbi, &k, nullptr);
        if (full(rc))
          return false;
        expect(rc, has ? MDBX_SUCCESS : MDBX_NOTFOUND, "mdbx_del(key) in a run");
        w.del(key);
      }
    } else {
      Bytes val = dup ? tb.dom.val_of((vseed + (one_key ? i * stride : b.next())) % tb.dom.nvals)
                      : bulk_bytes(vseed + i, b.below(vmaxlen));
      MDBX_val v = V(val);
      unsigned f = 0;
      if (app && (w.m.empty() || cmp_key(tb.dom.flags, key, w.m.rbegin()->first) > 0))
        f = MDBX_APPEND;
      int rc = mdbx_put(txn(), tb.dbi, &k, &v, (MDBX_put_flags_t)f);
      if (full(rc))
        return false;
      must(rc, "mdbx_put in a run");
      w.add(key, val);
    }
  }
  c.label(del ? "bulk-del" : "bulk-put");
  return true;
}
bool Db::op_sequence(Table &tb) {
  uint64_t inc = c.one<uint64_t>({1, 0, 2, 1000, 1ull << 32, 1ull << 63, ~0ull});
  uint64_t got = 12345, cur_seq = cur().ro(tb.name).seq;
  int rc = mdbx_dbi_sequence(txn(), tb.dbi, &got, inc);
  TR(c, "sequence %s += %llu = %s, got %llu (model %llu)", tb.name.c_str(), (unsigned long long)inc, rcname(rc),
     (unsigned long long)got, (unsigned long long)cur_seq);
  if (full(rc))
    return false;
  bool over = inc && cur_seq + inc < cur_seq;
  if (over) {
    expect(rc, MDBX_RESULT_TRUE, "mdbx_dbi_sequence overflowing");
  } else {
    must(rc, "mdbx_dbi_sequence");
    if (got != cur_seq)
      c.fail("sequence returned %llu, expected %llu", (unsigned long long)got, (unsigned long long)cur_seq);
    cur().rw(tb.name).seq = cur_seq + inc;
  }
  c.label("sequence");
  return true;
}
bool Db::op_clear(Table &tb) {
  int rc = mdbx_drop(txn(), tb.dbi, false);
  TR(c, "clear %s = %s", tb.name.c_str(), rcname(rc));
  if (full(rc))
    return false;
  must(rc, "mdbx_drop(clear)");
  MTable &w = cur().rw(tb.name);
  if (!w.m.empty())
    w.seq = 0; // the purge of an empty table does nothing
  w.clear();
  c.label("clear");
  return true;
}
} // namespace kit
__attribute__((constructor)) static void quiet_library() {
  const char *log = getenv("VF_LOG");  // for looking into a replay by hand
  mdbx_setup_debug(log ? MDBX_log_level_t(atoi(log)) : MDBX_LOG_FATAL, MDBX_DBG_DONTCHANGE,
                   log ? [](MDBX_log_level_t, const char *f, int l, const char *m, va_list a) noexcept {
                     printf("  # %s:%d ", f, l), vprintf(m, a), fflush(stdout);
                   } : MDBX_LOGGER_DONTCHANGE);
}
