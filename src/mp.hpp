// Concurrent workload: several processes and threads work on one database
// under a generated schedule; the history is checked against the records of
// the transactions they committed.
#pragma once
#include "kit.hpp"
#include "sched.hpp"
#include <sys/stat.h>
#include <unistd.h>

namespace mp {
using namespace kit;

// ------------------------------------------------------------- what a write transaction does
enum OpKind { O_PUT, O_DEL, O_DPUT, O_DDEL, O_DDELV, O_BULKPUT, O_BULKDEL, O_BIG, O_CLEAR, O_DCLEAR, O_NEST, O_JOIN, O_DROPNEST };
struct Op {
  uint8_t k, n;
  uint16_t key;
  uint32_t seed;
};
enum RecState { R_NONE, R_OPEN, R_PENDING, R_DONE, R_DEAD };
enum { MAXREC = 256, MAXOPS = 24 };
struct Rec {
  uint64_t id, clk;
  int state, pred, actor, nops;
  bool seen;
  Op ops[MAXOPS];
};
struct Shm {
  int nrec;
  uint64_t maxT; // the most recent snapshot anyone was given
  bool env_ready[sched::MAXPROC], closing[sched::MAXPROC];
  int writing[sched::MAXPROC], controlling[sched::MAXPROC]; // write transactions and control calls in progress
  bool shared_hit, risk_hit, opening[sched::MAXPROC], inclose[sched::MAXPROC];
  bool waiting[sched::MAXACT]; // done with its steps
  Rec rec[MAXREC];
  // readers as the harness knows them: for the reader list
  struct Rd {
    uint64_t T;
    bool live, unsure, parked;
    pid_t pid;
  } rd[2 * sched::MAXACT][4]; // the second half: of forked children
  pid_t pid[sched::MAXPROC];
  // slow readers
  uint64_t hsr_calls, hsr_oust;
  struct Cons {
    uint64_t pid, tid, txnid;
  } consent[64];
  int nconsent;
};

enum StepKind { S_WRITE, S_BEGIN, S_VERIFY, S_PEEK, S_END, S_RENEW, S_REFRESH, S_CLONE, S_PARK, S_UNPARK, S_SYNC, S_RCHECK, S_GEO, S_REOPEN, S_RLIST, S_AMEND, S_INFO, S_FORK, S_NKINDS };
inline const char *stepname(int k) {
  static const char *n[] = {"write", "begin", "verify", "peek", "end", "renew", "refresh", "clone", "park", "unpark", "sync", "reader_check", "geometry", "reopen", "reader_list", "amend", "info", "fork"};
  return n[k];
}
struct Step {
  int k = 0;
  unsigned slot = 0, slot2 = 0, a = 0, b = 0;
  std::vector<std::vector<Op>> segs; // write: segments separated by checkpoints
  std::vector<Step> sub;             // what a forked child does
};
enum { F_COMMIT, F_ABORT, F_EMBARK };

struct Profile {
  unsigned w[S_NKINDS] = {30, 20, 25, 10, 12, 6, 6, 6, 0, 0, 4, 3, 3, 2, 2, 3, 2, 0};
  unsigned minproc = 1, maxproc = 3, maxthreads = 3, maxsteps = 12;
  unsigned kill_num = 0, kill_den = 1; // per slice
  unsigned latecomers = 0;             // processes which start only after a kill
  bool tight = false;                  // the size limit is reached
  bool hsr = false;
  bool rewrite_after = false;          // check that space is reusable afterwards
  bool dp = true;
  int sticky = -1;                     // 0 never, 1 always
  unsigned nkeys = 60;
  unsigned small_budget = 0;           // bias of the schedule to tiny slices
  unsigned max_readers = 0;
  bool shared_control = false; // without sticky threads: control calls during a write transaction of another thread
};

inline Bytes akey(unsigned k) {
  char b[16];
  snprintf(b, sizeof b, "k%04u", k);
  Bytes s = b;
  s.append((k * 7) % 5 * 4, 'p');
  return s;
}
inline Bytes aval(unsigned ps, uint32_t seed, bool big) {
  vf::Bulk b(seed);
  size_t n;
  uint64_t r = b.next();
  if (big)
    n = ps + r % (ps * 8);
  else
    n = (r & 7) == 0 ? (r >> 8) % (ps + ps / 2) : (r >> 8) % 60;
  n = std::min<size_t>(n, 150000);
  Bytes s(n, 0);
  for (size_t i = 0; i < n; i += 8) {
    uint64_t x = b.next();
    memcpy(&s[i], &x, std::min<size_t>(8, n - i));
  }
  return s;
}
inline Bytes dval(uint32_t seed) {
  char b[40];
  snprintf(b, sizeof b, "%05u", seed % 300);
  Bytes s = b;
  s.append(seed % 11, 'd');
  return s;
}
const Bytes MARK = "\xff\xff\xffmark";

Model apply_ops(const Model &m, const Op *ops, int n, int rec, unsigned ps);
int apply_real(MDBX_txn *top, MDBX_dbi a, MDBX_dbi d, const Op *ops, int n, unsigned ps, std::vector<MDBX_txn *> &nest);

struct Machine;
void run_profile(vf::Ctx &c, const Profile &p);
} // namespace mp
