// Property-based testing engine: choice-stream generation, replay, shrinking.
//
// A case is a vector of "streams" of integers.  Stream 0 configures the case,
// every later stream drives one operation.  While generating, a draw takes a
// number from a PRNG that is a pure function of (VERIF_SEED, property, case);
// while replaying, it takes the next recorded number (0 when the stream is
// exhausted).  Shrinking edits the streams and replays.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace vf {

struct Rng {
  uint64_t s[2];
  static uint64_t mix(uint64_t &x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  void seed(uint64_t x) { s[0] = mix(x), s[1] = mix(x); }
  uint64_t next() {
    uint64_t a = s[0], b = s[1];
    s[0] = b;
    a ^= a << 23;
    s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
    return s[1] + b;
  }
};
// a cheap stateless generator for bulk bytes derived from a drawn number
struct Bulk {
  uint64_t x;
  explicit Bulk(uint64_t seed) : x(seed * 0x2545F4914F6CDD1Dull + 0x9E3779B97F4A7C15ull) {}
  uint64_t next() { return Rng::mix(x); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};

using Streams = std::vector<std::vector<uint64_t>>;

struct Failure {
  std::string msg;
  std::string sig; // stable identification of the failing site, for known findings
};
struct Inconclusive {
  std::string msg;
};
struct Discard {};

struct Shared; // driver side

struct Ctx {
  // ---- choices
  uint64_t below(uint64_t n);                 // 0..n-1
  uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
  bool chance(unsigned num, unsigned den) { return below(den) >= den - num; } // 0 (shrunk) means false
  bool flip() { return below(2) != 0; }
  uint64_t bits() { return below(0); }        // any 64-bit number
  uint64_t seed32() { return below(1u << 20); }
  // weighted choice; index 0 should be the simplest alternative
  size_t weighted(std::initializer_list<unsigned> w) { return weighted(w.begin(), w.size()); }
  size_t weighted(const std::vector<unsigned> &w) { return weighted(w.data(), w.size()); }
  size_t weighted(const unsigned *w, size_t n);
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
  template <class T> T one(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
  // a size with many small values and some big ones
  size_t skewed(size_t max);

  // ---- operation streams
  void plan_ops(size_t n) { planned = n; }
  bool next_op();       // moves to the stream of the next operation, false at the end
  size_t op_index() const { return cur; }

  // ---- reporting
  void (*on_fail)(void *, const char *) = nullptr; // called first, may throw something else
  void *on_fail_arg = nullptr;
  [[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  [[noreturn]] void fail_sig(const char *sig, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
  [[noreturn]] void inconclusive(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  void label(const char *name, uint64_t n = 1);
  void nontrivial() { is_nontrivial = true; }
  bool tracing = false;
  void trace(const char *fmt, ...) __attribute__((format(printf, 2, 3)));

  std::string dir;       // private scratch directory of the case (exists, empty)
  uint64_t index = 0;    // case number
  bool thorough = false;
  bool asan = false;
  int variant = 0;

  // ---- engine internals
  bool replay = false;
  Rng rng;
  Streams rs;
  size_t cur = 0, pos = 0, planned = 0;
  bool is_nontrivial = false;
  Shared *sh = nullptr;
  void log(uint64_t v);
  void begin(uint64_t seed);
  uint64_t hash = 0;
  void *slot = nullptr;
};

struct Config {
  const char *id;
  const char *rule;
  uint64_t quick_cases, thorough_cases;  // total over variants
  unsigned asan_share = 25;              // percent of cases run by the sanitizer build
  unsigned case_cpu_limit = 60;          // seconds of CPU after which a case counts as hung
  unsigned case_wall_limit = 240;        // seconds after which a case counts as blocked
  unsigned confirm = 3;                  // replays that must fail again
  bool deterministic = true;             // false: one failing history is conclusive by itself
  unsigned max_workers = 8;
  const char *level = "exploration";
  std::vector<const char *> assumptions;
};

// supplied by each property
extern const Config config;
void run_case(Ctx &c);
// optional extra work run once by the driver before the cases (weak)
} // namespace vf

// helper processes forked by a case must call this first in the child
void vf_child_init();
