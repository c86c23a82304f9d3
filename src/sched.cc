#include <execinfo.h>
#include <csignal>
#include "sched.hpp"
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <thread>
#include <sys/prctl.h>
#include <time.h>
#include <unistd.h>

using namespace sched;

namespace {
struct World {
  int budget; // of the running actor
  int nact, nproc;
  int kill_at_end;
  int nslice, si;
  std::atomic<int> go[MAXACT], ctl;
  bool alive[MAXACT], done[MAXACT];
  int proc[MAXACT];
  bool pkilled[MAXPROC];
  pid_t pid[MAXPROC];
  int victim; // process to be killed, -1
  int failed; // 1 failure, 2 inconclusive
  uint64_t points, switches, preempts, clock, quantum_total;
  unsigned kills;
  int streak;
  char msg[8192], sig[128];
  const char *waiting[MAXACT]; // string constants, same addresses in all processes
  Slice slices[MAXSLICE];
};
World *w;
__thread int me __attribute__((tls_model("initial-exec"))) = -1;
constexpr int QUANTUM = 400000;
constexpr uint64_t MAXPOINTS = 600000000;

int futex(std::atomic<int> *a, int op, int v, const timespec *t) {
  return syscall(SYS_futex, (int *)a, op, v, t, nullptr, 0);
}
void post(std::atomic<int> &a) {
  a.store(1);
  futex(&a, FUTEX_WAKE, 1, nullptr);
}
void await(std::atomic<int> &a) {
  while (a.exchange(0) == 0)
    futex(&a, FUTEX_WAIT, 0, nullptr);
}
bool runnable(int a) { return w->alive[a] && !w->done[a]; }

// chooses the next actor; -1 when nobody is left
int choose(int from) {
  while (w->si < w->nslice) {
    const Slice &s = w->slices[w->si++];
    int a = s.actor % w->nact;
    if (!runnable(a))
      continue;
    w->budget = s.budget ? s.budget : 1;
    w->quantum_total += w->budget;
    w->kill_at_end = s.kill;
    return a;
  }
  w->kill_at_end = 0;
  w->budget = QUANTUM;
  w->quantum_total += QUANTUM;
  for (int i = 1; i <= w->nact; ++i) {
    int a = (from + i + w->nact) % w->nact;
    if (runnable(a))
      return a;
  }
  return -1;
}
void park_forever() {
  for (;;)
    pause();
}
void hand_over(int next) {
  const int my = me;
  if (next < 0)
    post(w->ctl);
  else
    post(w->go[next]);
  if (my >= 0 && runnable(my))
    await(w->go[my]);
}
void report(int kind, const char *msg, const char *sig) {
  if (!w->failed) {
    w->failed = kind;
    snprintf(w->msg, sizeof w->msg, "%s", msg);
    snprintf(w->sig, sizeof w->sig, "%s", sig);
  }
  me = -1;
  post(w->ctl);
  park_forever();
}
// called by the running actor
void pass(bool blocked) {
  if (blocked) {
    if (++w->streak > 3000) {
      char b[600];
      int n = snprintf(b, sizeof b, "all live actors are blocked:");
      for (int i = 0; i < w->nact; ++i)
        if (runnable(i))
          n += snprintf(b + n, sizeof b - n, " actor %d in %s;", i, w->waiting[i] ? w->waiting[i] : "a spin loop");
      report(1, b, "deadlock");
    }
  }
  w->points += 1;
  if (w->quantum_total > MAXPOINTS)
    report(2, "the case takes too many steps", "");
  const int my = me;
  int n = choose(my);
  w->switches++;
  if (n != my)
    hand_over(n);
}
__attribute__((noinline)) void expired() {
  if (w->kill_at_end && may_die && !may_die(w->proc[me]))
    w->kill_at_end = 0;
  if (w->kill_at_end) {
    w->kill_at_end = 0;
    w->victim = w->proc[me];
    me = -1;
    post(w->ctl);
    kill(getpid(), SIGKILL);
    park_forever();
  }
  w->preempts++;
  w->streak = 0;
  int e = errno;
  pass(false);
  errno = e;
}
inline void point() {
  if (__builtin_expect(me >= 0, 1) && --w->budget <= 0)
    expired();
}
struct Waiting {
  Waiting(const char *s) {
    if (me >= 0)
      w->waiting[me] = s;
  }
  ~Waiting() {
    if (me >= 0)
      w->waiting[me] = nullptr, w->streak = 0;
  }
};
} // namespace

// ------------------------------------------------------------- called by the instrumented library
extern "C" {
#define AS(name) __asm__(#name)
void vf_trace_pc() AS(__sanitizer_cov_trace_pc);
void vf_trace_pc() { point(); }
void vf_ts_init() AS(__tsan_init);
void vf_ts_init() {}
void vf_ts_fe(void *) AS(__tsan_func_entry);
void vf_ts_fe(void *) {}
void vf_ts_fx() AS(__tsan_func_exit);
void vf_ts_fx() {}
#define ONE(name)                                                                                                      \
  void vf_##name(void *) AS(__tsan_##name);                                                                            \
  void vf_##name(void *) { point(); }
#define RW(n) ONE(read##n) ONE(write##n) ONE(unaligned_read##n) ONE(unaligned_write##n) ONE(volatile_read##n) ONE(volatile_write##n) ONE(unaligned_volatile_read##n) ONE(unaligned_volatile_write##n)
RW(1) RW(2) RW(4) RW(8) RW(16)
void vf_rr(void *, size_t) AS(__tsan_read_range);
void vf_rr(void *, size_t) { point(); }
void vf_wr(void *, size_t) AS(__tsan_write_range);
void vf_wr(void *, size_t) { point(); }
void vf_vp(void **p, void *v) AS(__tsan_vptr_update);
void vf_vp(void **p, void *v) { *p = v; }
#define A2(bits, T, op, expr)                                                                                          \
  T vf_at##bits##op(volatile T *a, T v, int) AS(__tsan_atomic##bits##_##op);                                           \
  T vf_at##bits##op(volatile T *a, T v, int) { point(); return expr; }
#define AT(bits, T)                                                                                                    \
  T vf_at##bits##load(const volatile T *a, int) AS(__tsan_atomic##bits##_load);                                        \
  T vf_at##bits##load(const volatile T *a, int) { point(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); }              \
  void vf_at##bits##store(volatile T *a, T v, int) AS(__tsan_atomic##bits##_store);                                    \
  void vf_at##bits##store(volatile T *a, T v, int) { point(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); }              \
  A2(bits, T, exchange, __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST))                                                   \
  A2(bits, T, fetch_add, __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST))                                                   \
  A2(bits, T, fetch_sub, __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST))                                                   \
  A2(bits, T, fetch_and, __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST))                                                   \
  A2(bits, T, fetch_or, __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST))                                                     \
  A2(bits, T, fetch_xor, __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST))                                                   \
  A2(bits, T, fetch_nand, __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST))                                                 \
  bool vf_cs##bits(volatile T *a, T *e, T v, int, int) AS(__tsan_atomic##bits##_compare_exchange_strong);              \
  bool vf_cs##bits(volatile T *a, T *e, T v, int, int) {                                                               \
    point(); return __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }                     \
  bool vf_cw##bits(volatile T *a, T *e, T v, int, int) AS(__tsan_atomic##bits##_compare_exchange_weak);                \
  bool vf_cw##bits(volatile T *a, T *e, T v, int, int) {                                                               \
    point(); return __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void vf_tf(int) AS(__tsan_atomic_thread_fence);
void vf_tf(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void vf_sf(int) AS(__tsan_atomic_signal_fence);
void vf_sf(int) {}

// ------------------------------------------------------------- blocking calls of the library
int __real_pthread_mutex_lock(pthread_mutex_t *m);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  if (me < 0)
    return __real_pthread_mutex_lock(m);
  point();
  int rc = pthread_mutex_trylock(m);
  if (rc != EBUSY)
    return rc;
  Waiting x("pthread_mutex_lock");
  do
    pass(true), rc = pthread_mutex_trylock(m);
  while (rc == EBUSY);
  return rc;
}
int __real_fcntl64(int fd, int cmd, ...);
int __wrap_fcntl64(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  void *arg = va_arg(ap, void *);
  va_end(ap);
  if (me >= 0)
    point();
  if (me < 0 || (cmd != F_SETLKW && cmd != F_OFD_SETLKW))
    return __real_fcntl64(fd, cmd, arg);
  const int c2 = cmd == F_SETLKW ? F_SETLK : F_OFD_SETLK;
  Waiting x("fcntl(F_SETLKW)");
  for (;;) {
    struct flock l = *(struct flock *)arg;
    int rc = __real_fcntl64(fd, c2, &l);
    if (rc == 0 || (errno != EAGAIN && errno != EACCES))
      return rc;
    pass(true);
  }
}
int __real_flock(int fd, int op);
int __wrap_flock(int fd, int op) {
  if (me >= 0)
    point();
  if (me < 0 || (op & (LOCK_NB | LOCK_UN)))
    return __real_flock(fd, op);
  Waiting x("flock");
  for (;;) {
    int rc = __real_flock(fd, op | LOCK_NB);
    if (rc == 0 || errno != EWOULDBLOCK)
      return rc;
    pass(true);
  }
}
int __real_usleep(unsigned us);
int __wrap_usleep(unsigned us) {
  if (me < 0)
    return __real_usleep(us);
  pass(false);
  return 0;
}
int __real_sched_yield();
int __wrap_sched_yield() {
  if (me < 0)
    return __real_sched_yield();
  pass(false);
  return 0;
}
}

// ------------------------------------------------------------- harness side
namespace sched {
int self() { return me; }
int self_proc() { return me < 0 ? -1 : w->proc[me]; }
void yield() {
  if (me >= 0)
    pass(false);
}
void wait_until(const std::function<bool()> &cond, const char *what) {
  if (cond())
    return;
  Waiting x(what);
  while (!cond())
    pass(true);
}
bool (*may_die)(unsigned) = nullptr;
bool killed(unsigned p) { return w->pkilled[p]; }
bool finished(unsigned a) { return !runnable(a); }
uint64_t now() { return ++w->clock; }

struct Sched::Impl {
  std::vector<std::vector<std::function<void()>>> procs;
  std::vector<std::pair<void *, size_t>> maps;
  unsigned nact = 0;
};
Sched::Sched(vf::Ctx &c) : c(c), I(new Impl) {
  w = (World *)mmap(nullptr, sizeof(World), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  w->victim = -1;
}
Sched::~Sched() {
  for (auto &m : I->maps)
    munmap(m.first, m.second);
  munmap(w, sizeof(World));
  w = nullptr;
  delete I;
}
void *Sched::shared(size_t n) {
  void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  I->maps.emplace_back(p, n);
  return p;
}
unsigned Sched::process(std::vector<std::function<void()>> a) {
  I->nact += a.size();
  I->procs.push_back(std::move(a));
  return I->procs.size() - 1;
}
unsigned Sched::nactors() const { return I->nact; }

static void actor(int id, const std::function<void()> &fn) {
  await(w->go[id]);
  me = id;
  try {
    fn();
  } catch (const vf::Failure &f) {
    report(1, f.msg.c_str(), f.sig.c_str());
  } catch (const vf::Inconclusive &f) {
    report(2, f.msg.c_str(), "");
  }
  w->streak = 0;
  w->done[id] = true;
  int n = choose(id);
  me = -1;
  if (n < 0)
    post(w->ctl);
  else
    post(w->go[n]);
}

static std::string asan_report();
void fork_here(const std::function<void()> &fn) {
  pid_t pid = fork();
  if (pid < 0)
    throw vf::Inconclusive{"fork"};
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    int ec = 0;
    try {
      fn();
    } catch (const vf::Failure &f) {
      report(1, f.msg.c_str(), f.sig.c_str()), ec = 1;
    } catch (const vf::Inconclusive &f) {
      report(2, f.msg.c_str(), ""), ec = 1;
    }
    _exit(ec);
  }
  int st;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
    ;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
    return;
  if (w->failed) {
    post(w->ctl);
    for (;;)
      pause();
  }
  std::string a = asan_report();
  report(1, ("a forked child ended with status " + std::to_string(st) + "\n" + a).c_str(), "exit");
  post(w->ctl);
  for (;;)
    pause();
}

static std::string asan_report() {
  int fd = open("/proc/self/fd/2", O_RDONLY);
  if (fd < 0)
    return "";
  std::string s;
  char b[4096];
  for (ssize_t n; s.size() < (1 << 18) && (n = read(fd, b, sizeof b)) > 0;)
    s.append(b, n);
  close(fd);
  size_t p = s.rfind("ERROR: AddressSanitizer");
  if (p == std::string::npos)
    p = s.rfind("runtime error");
  return p != std::string::npos ? s.substr(p, 1800) : s.size() > 500 ? s.substr(s.size() - 500) : s;
}

void Sched::run(const std::vector<Slice> &slices, Result &res) {
  w->nact = I->nact;
  w->nproc = I->procs.size();
  w->nslice = std::min<size_t>(slices.size(), MAXSLICE);
  for (int i = 0; i < w->nslice; ++i)
    w->slices[i] = slices[i];
  int id = 0;
  for (int p = 0; p < w->nproc; ++p)
    for (size_t i = 0; i < I->procs[p].size(); ++i, ++id)
      w->proc[id] = p, w->alive[id] = true;
  int base = 0;
  for (int p = 0; p < w->nproc; ++p) {
    auto &fns = I->procs[p];
    pid_t pid = fork();
    if (pid < 0)
      c.inconclusive("fork: %s", strerror(errno));
    if (pid == 0) {
      vf_child_init();
      if (getenv("VF_BT")) // for looking into a replay by hand
        for (int sg : {SIGABRT, SIGSEGV}) signal(sg, [](int) {
          void *b[40];
          int fd = open(getenv("VF_BT"), O_WRONLY | O_CREAT | O_TRUNC, 0600);
          backtrace_symbols_fd(b, backtrace(b, 40), fd);
          _exit(99);
        });
      for (size_t i = 1; i < fns.size(); ++i)
        std::thread([&, i] {
          actor(base + i, fns[i]);
          park_forever();
        }).detach();
      actor(base, fns[0]);
      for (size_t i = 1; i < fns.size(); ++i)
        while (!w->done[base + i])
          usleep(200);
      _exit(0);
    }
    w->pid[p] = pid;
    base += fns.size();
  }
  std::vector<bool> reaped(w->nproc);
  auto cleanup = [&] {
    for (int p = 0; p < w->nproc; ++p)
      if (!reaped[p])
        kill(w->pid[p], SIGKILL);
    for (int p = 0; p < w->nproc; ++p)
      if (!reaped[p])
        waitpid(w->pid[p], nullptr, 0), reaped[p] = true;
    res.points = w->quantum_total, res.switches = w->switches, res.preempts = w->preempts, res.kills = w->kills;
  };
  int n = choose(-1);
  if (n >= 0)
    post(w->go[n]);
  for (;;) {
    timespec ts{0, 20000000};
    if (w->ctl.load() == 0)
      futex(&w->ctl, FUTEX_WAIT, 0, &ts);
    bool hit = w->ctl.exchange(0);
    if (w->failed) {
      std::string m = w->msg, s = w->sig;
      int kind = w->failed;
      cleanup();
      if (kind == 2)
        c.inconclusive("%s", m.c_str());
      c.fail_sig(s.c_str(), "%s", m.c_str());
    }
    if (w->victim >= 0) {
      int p = w->victim;
      w->victim = -1;
      int st;
      waitpid(w->pid[p], &st, 0);
      reaped[p] = true;
      w->pkilled[p] = true;
      w->kills++;
      for (int i = 0; i < w->nact; ++i)
        if (w->proc[i] == p)
          w->alive[i] = false;
      w->streak = 0;
      if (on_death)
        on_death(p);
      n = choose(-1);
      if (n >= 0)
        post(w->go[n]);
      else
        hit = true;
    }
    for (int p = 0; p < w->nproc; ++p) {
      int st;
      if (!reaped[p] && waitpid(w->pid[p], &st, WNOHANG) == w->pid[p]) {
        reaped[p] = true;
        if (!WIFEXITED(st) || WEXITSTATUS(st)) {
          std::string a = asan_report();
          int ec = WIFEXITED(st) ? WEXITSTATUS(st) : -1, sg = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
          if (w->victim < 0) {
            cleanup();
            if (sg == SIGKILL)
              c.inconclusive("a process was killed from outside");
            c.fail_sig(sg ? "signal" : "exit", "process %d died: %s %d\n%s", p, sg ? "signal" : "exit code", sg ? sg : ec, a.c_str());
          }
        }
      }
    }
    if (hit) {
      bool left = false;
      for (int i = 0; i < w->nact; ++i)
        left |= runnable(i);
      if (!left)
        break;
    }
  }
  for (int p = 0; p < w->nproc; ++p)
    if (!reaped[p]) {
      int st;
      waitpid(w->pid[p], &st, 0);
      reaped[p] = true;
      if (!WIFEXITED(st) || WEXITSTATUS(st)) {
        std::string a = asan_report();
        cleanup();
        c.fail_sig("exit", "process %d ended with status 0x%x\n%s", p, st, a.c_str());
      }
    }
  cleanup();
}
} // namespace sched
