// Driver and worker of the property-testing engine (see vf.hpp).
#include "vf.hpp"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace vf {
using std::string;
static uint64_t now_ms() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec * 1000ull + ts.tv_nsec / 1000000;
}

constexpr size_t LOGCAP = 1u << 20, STREAMCAP = 1u << 16, TRACECAP = 1u << 19, MAXSLOTS = 12, LABELS = 400,
                 HASHCAP = 1u << 20, NSAMPLES = 12, SAMPLECAP = 6000;
enum Status : int { IDLE = 0, RUNNING, PASSED, FAILED, INCONCLUSIVE };
struct Slot {
  std::atomic<uint64_t> start_ms;
  std::atomic<int> status;
  std::atomic<uint32_t> nlog, nstreams, ntrace;
  uint64_t index;
  int variant;
  int nontrivial;
  char msg[8192], sig[256];
  uint32_t bounds[STREAMCAP];
  uint64_t log[LOGCAP];
  char trace[TRACECAP];
};
struct Label {
  char name[72];
  std::atomic<uint64_t> n;
};
struct Shared {
  std::atomic<uint64_t> next[2];
  uint64_t end[2];
  uint64_t seed;
  int thorough;
  std::atomic<int> stop;
  std::atomic<uint64_t> evaluations, nontrivial, discarded, inconclusive, ops, nhash;
  std::atomic<int> label_lock;
  std::atomic<uint32_t> nlabels;
  Label labels[LABELS];
  uint64_t hashes[HASHCAP];
  std::atomic<int> sample_ok[NSAMPLES];
  char samples[NSAMPLES][SAMPLECAP];
  char scratch[128];
  Slot slots[MAXSLOTS];
};
static Shared *S;
static Slot *myslot;

static uint64_t case_seed(uint64_t seed, uint64_t index) {
  uint64_t x = seed * 0x9E3779B97F4A7C15ull + 0x1234567;
  for (const char *p = config.id; *p; ++p)
    x = (x ^ (unsigned char)*p) * 0x100000001b3ull;
  uint64_t y = Rng::mix(x) ^ (index * 0xD6E8FEB86659FD93ull);
  return Rng::mix(y);
}

// ------------------------------------------------------------------ Ctx
void Ctx::log(uint64_t v) {
  hash = (hash ^ v) * 0x100000001b3ull;
  Slot *s = (Slot *)slot;
  if (!s)
    return;
  uint32_t n = s->nlog.load(std::memory_order_relaxed);
  if (n < LOGCAP) {
    s->log[n] = v;
    s->nlog.store(n + 1, std::memory_order_release);
  } else
    throw Inconclusive{"choice log overflow"};
}
void Ctx::begin(uint64_t seed) {
  rng.seed(seed);
  cur = pos = planned = 0;
  hash = 0xcbf29ce484222325ull;
  is_nontrivial = false;
  Slot *s = (Slot *)slot;
  s->nlog = 0;
  s->bounds[0] = 0;
  s->nstreams = 1;
  s->ntrace = 0;
  s->trace[0] = 0;
}
uint64_t Ctx::below(uint64_t n) {
  uint64_t v;
  if (replay) {
    v = (cur < rs.size() && pos < rs[cur].size()) ? rs[cur][pos] : 0;
    ++pos;
    if (n)
      v %= n;
  } else {
    v = rng.next();
    if (n)
      v = (uint64_t)(((unsigned __int128)v * n) >> 64);
  }
  log(v);
  return v;
}
size_t Ctx::weighted(const unsigned *w, size_t n) {
  unsigned total = 0;
  for (size_t i = 0; i < n; ++i)
    total += w[i];
  uint64_t v = below(total);
  for (size_t i = 0; i < n; ++i) {
    if (v < w[i])
      return i;
    v -= w[i];
  }
  return n - 1;
}
size_t Ctx::skewed(size_t max) {
  static const size_t caps[] = {0, 1, 4, 16, 64, 256, 1024, 4096, 16384, 65536, 1u << 18, 1u << 20};
  size_t k = 0;
  while (k + 1 < sizeof(caps) / sizeof(caps[0]) && caps[k] < max)
    ++k;
  size_t c = caps[below(k + 1)];
  return below((c < max ? c : max) + 1);
}
bool Ctx::next_op() {
  size_t n = replay ? (rs.empty() ? 0 : rs.size() - 1) : planned;
  if (replay && n > planned)
    n = planned;
  if (cur >= n)
    return false;
  ++cur;
  pos = 0;
  hash = (hash ^ 0xABCDEF) * 0x100000001b3ull;
  Slot *s = (Slot *)slot;
  uint32_t k = s->nstreams;
  if (k < STREAMCAP) {
    s->bounds[k] = s->nlog;
    s->nstreams = k + 1;
  } else
    throw Inconclusive{"stream overflow"};
  S->ops.fetch_add(1, std::memory_order_relaxed);
  return true;
}
static string vformat(const char *fmt, va_list ap) {
  char buf[16384];
  vsnprintf(buf, sizeof(buf), fmt, ap);
  return buf;
}
void Ctx::fail(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  string m = vformat(fmt, ap);
  va_end(ap);
  if (on_fail) on_fail(on_fail_arg, m.c_str());
  throw Failure{m, ""};
}
void Ctx::fail_sig(const char *sig, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  string m = vformat(fmt, ap);
  va_end(ap);
  if (on_fail) on_fail(on_fail_arg, m.c_str());
  throw Failure{m, sig};
}
void Ctx::inconclusive(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  string m = vformat(fmt, ap);
  va_end(ap);
  throw Inconclusive{m};
}
void Ctx::label(const char *name, uint64_t n) {
  uint32_t k = S->nlabels.load(std::memory_order_acquire);
  for (uint32_t i = 0; i < k; ++i)
    if (!strcmp(S->labels[i].name, name)) {
      S->labels[i].n.fetch_add(n, std::memory_order_relaxed);
      return;
    }
  while (S->label_lock.exchange(1, std::memory_order_acquire))
    usleep(1);
  k = S->nlabels.load();
  uint32_t i;
  for (i = 0; i < k; ++i)
    if (!strcmp(S->labels[i].name, name))
      break;
  if (i == k && k < LABELS) {
    strncpy(S->labels[k].name, name, sizeof(S->labels[k].name) - 1);
    S->labels[k].n = 0;
    S->nlabels.store(k + 1, std::memory_order_release);
  }
  if (i < LABELS)
    S->labels[i].n.fetch_add(n);
  S->label_lock.store(0, std::memory_order_release);
}
void Ctx::trace(const char *fmt, ...) {
  if (!tracing)
    return;
  va_list ap;
  va_start(ap, fmt);
  string m = vformat(fmt, ap);
  va_end(ap);
  Slot *s = (Slot *)slot;
  uint32_t n = s->ntrace;
  if (n + m.size() + 2 < TRACECAP) {
    memcpy(s->trace + n, m.data(), m.size());
    n += m.size();
    s->trace[n++] = '\n';
    s->trace[n] = 0;
    s->ntrace = n;
  }
  if (getenv("VF_VERBOSE"))
    fprintf(stderr, "%s\n", m.c_str());
}

// ------------------------------------------------------------------ scratch
static void rm_rf(const string &p, bool top) {
  DIR *d = opendir(p.c_str());
  if (d) {
    while (dirent *e = readdir(d)) {
      if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, ".."))
        continue;
      string q = p + "/" + e->d_name;
      struct stat st;
      if (lstat(q.c_str(), &st) == 0) {
        if (S_ISDIR(st.st_mode))
          rm_rf(q, true);
        else
          unlink(q.c_str());
      }
    }
    closedir(d);
  }
  if (top)
    rmdir(p.c_str());
}

static void arm_cpu_limit(unsigned seconds) {
  itimerval tv{};
  tv.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &tv, nullptr);
}

static int exec_case(Ctx &c, Slot *s) {
  s->msg[0] = s->sig[0] = 0;
  s->nontrivial = 0;
  mkdir(c.dir.c_str(), 0700);
  rm_rf(c.dir, false);
  c.begin(case_seed(S->seed, c.index));
  s->index = c.index;
  s->start_ms = now_ms();
  s->status = RUNNING;
  arm_cpu_limit(config.case_cpu_limit);
  int st = PASSED;
  try {
    run_case(c);
  } catch (Failure &f) {
    strncpy(s->msg, f.msg.c_str(), sizeof(s->msg) - 1);
    strncpy(s->sig, f.sig.c_str(), sizeof(s->sig) - 1);
    st = FAILED;
  } catch (Inconclusive &f) {
    strncpy(s->msg, f.msg.c_str(), sizeof(s->msg) - 1);
    st = INCONCLUSIVE;
  } catch (Discard &) {
    S->discarded++;
  } catch (std::exception &e) {
    snprintf(s->msg, sizeof(s->msg), "unexpected C++ exception: %s", e.what());
    st = INCONCLUSIVE;
  }
  arm_cpu_limit(0);
  s->nontrivial = c.is_nontrivial;
  s->status = st;
  s->start_ms = 0;
  return st;
}

static int worker(int fd, int slotno, int variant) {
  S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (S == MAP_FAILED)
    return 9;
  close(fd);
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  setpgid(0, 0);
  Slot *s = myslot = &S->slots[slotno];
  s->variant = variant;
  Ctx c;
  c.slot = s;
  c.thorough = S->thorough;
  c.asan = variant == 1;
  c.variant = variant;
  c.dir = string(S->scratch) + "/w" + std::to_string(slotno);
  while (!S->stop) {
    uint64_t i = S->next[variant].fetch_add(1);
    if (i >= S->end[variant])
      break;
    c.index = i;
    c.tracing = variant == 0 && i < NSAMPLES;
    c.replay = false;
    int st = exec_case(c, s);
    S->evaluations++;
    if (c.is_nontrivial) {
      S->nontrivial++;
      uint64_t k = S->nhash.fetch_add(1);
      if (k < HASHCAP)
        S->hashes[k] = c.hash;
    }
    if (c.tracing && i < NSAMPLES) {
      size_t n = std::min<size_t>(s->ntrace, SAMPLECAP - 1);
      memcpy(S->samples[i], s->trace, n);
      S->samples[i][n] = 0;
      S->sample_ok[i] = c.is_nontrivial ? 2 : 1;
    }
    if (st == INCONCLUSIVE) {
      S->inconclusive++;
      fprintf(stderr, "inconclusive case %llu: %s\n", (unsigned long long)i, s->msg);
      return 4;
    }
    if (st == FAILED)
      return 3;
    s->status = IDLE;
  }
  rm_rf(c.dir, true);
  return 0;
}

// replays the streams found in the slot's log
static int replayer(int fd, int slotno, int variant, const char *file, bool verbose) {
  S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (S == MAP_FAILED)
    return 9;
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  setpgid(0, 0);
  Slot *s = myslot = &S->slots[slotno];
  s->variant = variant;
  Ctx c;
  c.slot = s;
  c.thorough = S->thorough;
  c.asan = variant == 1;
  c.variant = variant;
  c.replay = true;
  c.tracing = true;
  c.dir = string(S->scratch) + "/w" + std::to_string(slotno);
  std::ifstream in(file);
  string line;
  while (std::getline(in, line)) {
    if (line.rfind("stream", 0) == 0) {
      std::istringstream is(line.substr(6));
      std::vector<uint64_t> v;
      uint64_t x;
      while (is >> x)
        v.push_back(x);
      c.rs.push_back(v);
    } else if (line.rfind("case ", 0) == 0)
      c.index = strtoull(line.c_str() + 5, nullptr, 10);
  }
  (void)verbose;
  int st = exec_case(c, s);
  if (st != FAILED)
    rm_rf(c.dir, true);
  return st == FAILED ? 3 : st == INCONCLUSIVE ? 4 : 0;
}

// ------------------------------------------------------------------ driver
struct Found {
  uint64_t index = 0;
  int variant = 0;
  Streams streams;
  string msg, sig, trace;
};
static string self_path[2];
static int shm_fd;
static string scratch;

static Streams slot_streams(Slot *s) {
  Streams r;
  uint32_t n = s->nstreams, total = s->nlog;
  for (uint32_t i = 0; i < n; ++i) {
    uint32_t a = s->bounds[i], b = i + 1 < n ? s->bounds[i + 1] : total;
    r.emplace_back(s->log + a, s->log + b);
  }
  return r;
}
static string tail(const string &file, size_t max) {
  std::ifstream in(file, std::ios::binary);
  std::stringstream ss;
  ss << in.rdbuf();
  string t = ss.str();
  // the interesting part of a sanitizer report is its head
  size_t p = t.find("ERROR: AddressSanitizer");
  if (p != string::npos)
    return t.substr(p, max);
  p = t.find("runtime error:");
  if (p != string::npos)
    return t.substr(p > 200 ? p - 200 : 0, max);
  return t.size() > max ? t.substr(t.size() - max) : t;
}
static pid_t spawn(const string &bin, std::vector<string> args, const string &err) {
  pid_t p = fork();
  if (p == 0) {
    std::vector<char *> av;
    av.push_back((char *)bin.c_str());
    for (auto &a : args)
      av.push_back((char *)a.c_str());
    av.push_back(nullptr);
    if (!getenv("VF_VERBOSE")) {
      int e = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
      dup2(e, 2);
      dup2(e, 1);
      close(e);
    }
    execv(bin.c_str(), av.data());
    _exit(9);
  }
  setpgid(p, p);
  return p;
}
static void kill_group(pid_t p) {
  kill(-p, SIGKILL);
  kill(p, SIGKILL);
}

// outcome of one finished child
static bool describe_end(int wst, Slot *s, const string &err, bool blocked, string &msg, string &sig, bool &inconcl) {
  inconcl = false;
  int st = s->status;
  if (blocked) {
    msg = "the case did not finish within " + std::to_string(config.case_wall_limit) + " s of wall time (blocked)";
    sig = "blocked";
    return true;
  }
  if (WIFEXITED(wst) && WEXITSTATUS(wst) == 0)
    return false;
  if (WIFEXITED(wst) && WEXITSTATUS(wst) == 3 && st == FAILED) {
    msg = s->msg;
    sig = s->sig;
    return true;
  }
  if (WIFEXITED(wst) && (WEXITSTATUS(wst) == 4 || WEXITSTATUS(wst) == 9)) {
    inconcl = true;
    msg = s->msg;
    return false;
  }
  if (st != RUNNING) {
    inconcl = true;
    msg = "worker ended between cases, status " + std::to_string(wst);
    return false;
  }
  if (WIFSIGNALED(wst) && WTERMSIG(wst) == SIGKILL) {
    inconcl = true;
    msg = "worker was killed from outside";
    return false;
  }
  if (WIFSIGNALED(wst) && WTERMSIG(wst) == SIGPROF) {
    msg = "the case used more than " + std::to_string(config.case_cpu_limit) + " s of CPU time (endless loop)";
    sig = "hang";
    return true;
  }
  string t = tail(err, 3000);
  if (WIFSIGNALED(wst)) {
    msg = string("the process crashed with signal ") + strsignal(WTERMSIG(wst)) + "\n" + t;
    sig = string("signal-") + std::to_string(WTERMSIG(wst));
  } else {
    msg = "the process ended with exit code " + std::to_string(WEXITSTATUS(wst)) + "\n" + t;
    sig = "exit-" + std::to_string(WEXITSTATUS(wst));
  }
  return true;
}

static void write_case(const string &file, const Found &f) {
  std::ofstream o(file);
  o << "property " << config.id << "\nseed " << S->seed << "\ncase " << f.index << "\nvariant " << f.variant << "\n";
  for (auto &s : f.streams) {
    o << "stream";
    for (auto v : s)
      o << ' ' << v;
    o << "\n";
  }
  std::istringstream is(f.msg + "\n--- trace\n" + f.trace);
  string line;
  while (std::getline(is, line))
    o << "# " << line << "\n";
}

// run one candidate; returns true when it fails
static bool run_candidate(Found &f, int slotno, bool &inconcl) {
  string file = scratch + "/cand" + std::to_string(slotno);
  write_case(file, f);
  Slot *s = &S->slots[slotno];
  s->status = IDLE;
  s->start_ms = 0;
  string err = scratch + "/cand.err" + std::to_string(slotno);
  pid_t p = spawn(self_path[f.variant],
                  {"--replayer", std::to_string(shm_fd), std::to_string(slotno), std::to_string(f.variant), file}, err);
  uint64_t t0 = now_ms();
  int wst = 0;
  bool blocked = false;
  for (;;) {
    pid_t r = waitpid(p, &wst, WNOHANG);
    if (r == p)
      break;
    if (now_ms() - t0 > config.case_wall_limit * 1000ull) {
      blocked = true;
      kill_group(p);
      waitpid(p, &wst, 0);
      break;
    }
    usleep(now_ms() - t0 < 50 ? 500 : 5000);
  }
  kill_group(p);
  string msg, sig;
  bool bad = describe_end(wst, s, err, blocked, msg, sig, inconcl);
  if (bad) {
    f.msg = msg;
    f.sig = sig;
    f.trace = s->trace;
    f.streams = slot_streams(s);
  }
  rm_rf(string(S->scratch) + "/w" + std::to_string(slotno), true);
  return bad;
}

static size_t weight(const Streams &s) {
  size_t n = 0;
  for (auto &v : s)
    n += 4 + v.size();
  return n;
}

static void shrink(Found &best, uint64_t budget_ms) {
  uint64_t t_end = now_ms() + budget_ms;
  auto attempt = [&](Streams st) {
    if (now_ms() > t_end)
      return false;
    Found f = best;
    f.streams = std::move(st);
    bool inc;
    if (!run_candidate(f, MAXSLOTS - 1, inc))
      return false;
    if (f.sig != best.sig)
      return false;
    size_t a = weight(f.streams), b = weight(best.streams);
    if (a < b || (a == b && f.streams < best.streams)) {
      best = f;
      return true;
    }
    return false;
  };
  bool progress = true;
  while (progress && now_ms() < t_end) {
    progress = false;
    for (size_t chunk = std::max<size_t>(1, (best.streams.size() - 1) / 2); chunk && now_ms() < t_end; chunk /= 2) {
      size_t i = best.streams.size();
      while (i > 1 && now_ms() < t_end) {
        size_t a = i > chunk + 1 ? i - chunk : 1;
        if (a >= best.streams.size()) {
          i = best.streams.size();
          if (i <= 1)
            break;
          continue;
        }
        Streams st = best.streams;
        st.erase(st.begin() + a, st.begin() + std::min(i, st.size()));
        if (attempt(st)) {
          progress = true;
          i = std::min(a, best.streams.size());
        } else
          i = a;
      }
    }
    for (size_t k = 0; k < best.streams.size() && now_ms() < t_end; ++k) {
      for (size_t j = 0; j < best.streams[k].size() && now_ms() < t_end; ++j) {
        uint64_t v = best.streams[k][j];
        for (uint64_t cand : {(uint64_t)0, v / 8, v / 2, v ? v - 1 : 0}) {
          if (cand >= v)
            continue;
          Streams st = best.streams;
          st[k][j] = cand;
          if (attempt(st)) {
            progress = true;
            break;
          }
        }
        if (j + 1 > best.streams[k].size())
          break;
      }
      if (k >= best.streams.size())
        break;
    }
  }
}

static string jstr(const string &s) {
  string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\')
      o += '\\', o += ch;
    else if (ch == '\n')
      o += "\\n";
    else if (ch < 0x20 || ch >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    } else
      o += ch;
  }
  return o + "\"";
}

static int driver(int argc, char **argv) {
  // usage: prog [--bin0 path --bin1 path] [--replay file] [--cases N] [--one index variant]
  string root = getenv("VF_ROOT") ? getenv("VF_ROOT") : ".";
  string replay_file, bin1;
  uint64_t cases = 0;
  bool nosrk = getenv("VF_NOSHRINK") != nullptr;
  bool keep_going = getenv("VF_KEEPGOING") != nullptr;
  int64_t only = -1;
  int only_variant = 0;
  for (int i = 1; i < argc; ++i) {
    string a = argv[i];
    if (a == "--bin1" && i + 1 < argc)
      bin1 = argv[++i];
    else if (a == "--replay" && i + 1 < argc)
      replay_file = argv[++i];
    else if (a == "--cases" && i + 1 < argc)
      cases = strtoull(argv[++i], nullptr, 10);
    else if (a == "--one" && i + 2 < argc) {
      only = strtoll(argv[++i], nullptr, 10);
      only_variant = atoi(argv[++i]);
    }
  }
  char buf[4096];
  ssize_t k = readlink("/proc/self/exe", buf, sizeof(buf) - 1);
  buf[k > 0 ? k : 0] = 0;
  self_path[0] = buf;
  self_path[1] = bin1.empty() ? self_path[0] : bin1;
  const char *es = getenv("VERIF_SEED"), *et = getenv("VERIF_TIER");
  uint64_t seed = es ? strtoull(es, nullptr, 10) : 1;
  bool thorough = et && !strcmp(et, "thorough");
  if (const char *t = getenv("VF_TIER"))
    thorough = !strcmp(t, "thorough");

  string base = "/dev/shm";
  struct stat stt;
  if (stat(base.c_str(), &stt) != 0 || access(base.c_str(), W_OK) != 0)
    base = "/tmp";
  if (const char *sd = getenv("VF_SCRATCH"))
    base = sd;
  scratch = base + "/vf-" + config.id + "-" + std::to_string(getpid());
  mkdir(scratch.c_str(), 0700);

  shm_fd = memfd_create("vf", 0);
  if (shm_fd < 0 || ftruncate(shm_fd, sizeof(Shared)) != 0) {
    fprintf(stderr, "cannot create shared memory\n");
    return 2;
  }
  S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, shm_fd, 0);
  S->seed = seed;
  S->thorough = thorough;
  strncpy(S->scratch, scratch.c_str(), sizeof(S->scratch) - 1);

  int exitcode = 0;
  uint64_t t0 = now_ms();
  struct Known {
    string sig, what;
    uint64_t n = 0;
  };
  std::vector<Known> known;
  {
    std::ifstream in(root + "/known_findings.txt");
    string line, pre = string("finding: property=") + config.id + " sig=";
    while (std::getline(in, line))
      if (line.rfind(pre, 0) == 0) {
        string rest = line.substr(pre.size());
        size_t sp = rest.find(' ');
        known.push_back({rest.substr(0, sp), sp == string::npos ? "" : rest.substr(sp + 1), 0});
      }
  }

  if (!replay_file.empty()) {
    Found f;
    std::ifstream in(replay_file);
    string line;
    while (std::getline(in, line)) {
      if (line.rfind("stream", 0) == 0) {
        std::istringstream is(line.substr(6));
        std::vector<uint64_t> v;
        uint64_t x;
        while (is >> x)
          v.push_back(x);
        f.streams.push_back(v);
      } else if (line.rfind("case ", 0) == 0)
        f.index = strtoull(line.c_str() + 5, nullptr, 10);
      else if (line.rfind("variant ", 0) == 0)
        f.variant = atoi(line.c_str() + 8);
      else if (line.rfind("seed ", 0) == 0)
        S->seed = strtoull(line.c_str() + 5, nullptr, 10);
    }
    bool inc = false;
    bool bad = run_candidate(f, 0, inc);
    printf("%s\n--- %s\n%s\n", S->slots[0].trace, bad ? "FAILED" : inc ? "INCONCLUSIVE" : "passed",
           bad ? f.msg.c_str() : S->slots[0].msg);
    rm_rf(scratch, true);
    if (bad)
      printf("VIOLATION property=%s replay=%s\n", config.id, replay_file.c_str());
    return bad ? 1 : inc ? 2 : 0;
  }

  uint64_t total = cases ? cases : thorough ? config.thorough_cases : config.quick_cases;
  uint64_t na = total * config.asan_share / 100;
  if (bin1.empty())
    na = 0;
  S->next[0] = 0, S->end[0] = total - na;
  S->next[1] = 1000000000ull, S->end[1] = 1000000000ull + na;
  if (only >= 0) {
    S->end[0] = S->next[0] = 0, S->end[1] = S->next[1] = 1000000000ull;
    S->next[only_variant] = only, S->end[only_variant] = only + 1;
  }

  long ncpu = sysconf(_SC_NPROCESSORS_ONLN);
  unsigned nw = std::min<unsigned>(config.max_workers, MAXSLOTS - 2);
  if (ncpu > 0 && ncpu < (long)nw)
    nw = ncpu;
  unsigned asan_workers = na ? std::max<unsigned>(1, nw * 2 * na / (total - na + 2 * na + 1)) : 0;
  std::vector<pid_t> pids(nw, 0);
  std::vector<int> var(nw, 0);
  std::vector<Found> found;
  unsigned inconclusive_workers = 0, unconfirmed = 0;
  uint64_t wall_cap = (thorough ? 3600 : 300) * 1000ull;
  if (const char *w = getenv("VF_WALLCAP"))
    wall_cap = strtoull(w, nullptr, 10) * 1000;
  bool capped = false;
  uint64_t last_report = now_ms();
  for (;;) {
    bool busy = false;
    for (unsigned i = 0; i < nw; ++i) {
      if (pids[i] == 0 && !S->stop) {
        int v = -1;
        bool rem0 = S->next[0] < S->end[0], rem1 = S->next[1] < S->end[1];
        if (i < asan_workers ? rem1 : false)
          v = 1;
        else if (rem0)
          v = 0;
        else if (rem1)
          v = 1;
        if (v >= 0) {
          var[i] = v;
          S->slots[i].status = IDLE;
          S->slots[i].start_ms = 0;
          pids[i] = spawn(self_path[v], {"--worker", std::to_string(shm_fd), std::to_string(i), std::to_string(v)},
                          scratch + "/err" + std::to_string(i));
        }
      }
      if (pids[i] == 0)
        continue;
      busy = true;
      int wst;
      pid_t r = waitpid(pids[i], &wst, WNOHANG);
      bool blocked = false;
      if (r == 0) {
        uint64_t st = S->slots[i].start_ms;
        if (st && now_ms() > st && now_ms() - st > config.case_wall_limit * 1000ull && S->slots[i].status == RUNNING) {
          blocked = true;
          kill_group(pids[i]);
          waitpid(pids[i], &wst, 0);
        } else
          continue;
      }
      kill_group(pids[i]);
      pids[i] = 0;
      string msg, sig;
      bool inc;
      Slot *s = &S->slots[i];
      if (describe_end(wst, s, scratch + "/err" + std::to_string(i), blocked, msg, sig, inc)) {
        Known *kn = nullptr;
        for (auto &q : known)
          if (q.sig == sig && !sig.empty())
            kn = &q;
        if (kn) {
          kn->n++;
          s->status = IDLE;
          continue;
        }
        Found f;
        f.index = s->index, f.variant = var[i], f.streams = slot_streams(s), f.msg = msg, f.sig = sig;
        fprintf(stderr, "case %llu (variant %d) failed: %s\n", (unsigned long long)f.index, f.variant, msg.c_str());
        if (!config.deterministic) {
          found.push_back(f);
        } else {
          unsigned ok = 0;
          for (unsigned t = 0; t < config.confirm; ++t) {
            Found g = f;
            bool inc2;
            if (run_candidate(g, MAXSLOTS - 1, inc2))
              ++ok, f.sig = g.sig, f.trace = g.trace, f.msg = g.msg;
          }
          if (ok == config.confirm)
            found.push_back(f);
          else {
            ++unconfirmed;
            fprintf(stderr, "case %llu: %u of %u replays failed again\n", (unsigned long long)f.index, ok,
                    config.confirm);
            if (ok > 0 && ++unconfirmed > 6)
              found.push_back(f);
          }
        }
        if (!found.empty() && !keep_going)
          S->stop = 1;
      } else if (inc) {
        ++inconclusive_workers;
        fprintf(stderr, "inconclusive: case %llu: %s\n", (unsigned long long)s->index, msg.c_str());
        if (inconclusive_workers > 50)
          S->stop = 1;
      }
      s->status = IDLE;
    }
    if (!busy)
      break;
    if (S->stop && !found.empty()) { // do not wait for long cases
      for (unsigned i = 0; i < nw; ++i)
        if (pids[i])
          kill_group(pids[i]);
    }
    if (now_ms() - t0 > wall_cap && !S->stop) {
      capped = true;
      S->stop = 1;
    }
    if (getenv("VF_PROGRESS") && now_ms() - last_report > 5000) {
      last_report = now_ms();
      fprintf(stderr, "[%llu s] %llu cases, %llu ops\n", (unsigned long long)((now_ms() - t0) / 1000),
              (unsigned long long)S->evaluations, (unsigned long long)S->ops);
    }
    usleep(2000);
  }
  double search_s = (now_ms() - t0) / 1000.0;

  string replay_path;
  if (!found.empty()) {
    Found f = found.front();
    if (config.deterministic && !nosrk && f.sig != "blocked" && f.sig != "hang")
      shrink(f, thorough ? 120000 : 45000);
    mkdir((root + "/replays").c_str(), 0755);
    replay_path = root + "/replays/" + config.id + "-s" + std::to_string(seed) + "-c" + std::to_string(f.index) + ".case";
    if (f.trace.empty()) {
      Found g = f;
      bool inc;
      if (config.deterministic)
        run_candidate(g, MAXSLOTS - 1, inc), f.trace = S->slots[MAXSLOTS - 1].trace;
    }
    write_case(replay_path, f);
    fprintf(stderr, "%s\n--- trace of the failing case\n%s\n", f.msg.c_str(), f.trace.c_str());
    exitcode = 1;
  }

  // evidence
  std::unordered_set<uint64_t> uniq;
  for (uint64_t i = 0; i < std::min<uint64_t>(S->nhash, HASHCAP); ++i)
    uniq.insert(S->hashes[i]);
  uint64_t distinct = uniq.size();
  mkdir((root + "/evidence").c_str(), 0755);
  {
    std::ofstream o(root + "/evidence/" + config.id + ".json");
    o << "{\n \"property\": " << jstr(config.id) << ",\n \"tier\": \"" << (thorough ? "thorough" : "quick")
      << "\",\n \"seed\": " << seed << ",\n \"level\": " << jstr(config.level) << ",\n \"coverage\": {\n";
    o << "  \"evaluations\": " << S->evaluations << ",\n  \"distinct_nontrivial\": " << distinct
      << ",\n  \"rule\": " << jstr(config.rule) << ",\n";
    o << "  \"operations\": " << S->ops << ",\n  \"planned_cases\": " << total << ",\n  \"planned_sanitizer_cases\": " << na
      << ",\n  \"inconclusive\": " << inconclusive_workers << ",\n  \"discarded\": " << S->discarded
      << ",\n  \"unconfirmed\": " << unconfirmed << ",\n  \"stopped_by_wall_cap\": " << (capped ? "true" : "false") << ",\n";
    uint64_t kf = 0;
    for (auto &q : known)
      kf += q.n;
    o << "  \"known_finding_hits\": " << kf << ",\n  \"search_s\": " << search_s << ",\n";
    o << "  \"classes\": {";
    std::map<string, uint64_t> ls;
    for (uint32_t i = 0; i < S->nlabels; ++i)
      ls[S->labels[i].name] = S->labels[i].n;
    bool first = true;
    for (auto &l : ls) {
      o << (first ? "" : ", ") << "\n   " << jstr(l.first) << ": " << l.second;
      first = false;
    }
    o << "\n  },\n  \"samples\": [";
    int shown = 0;
    for (int pass = 2; pass >= 1 && shown < 2; --pass)
      for (size_t i = 0; i < NSAMPLES && shown < 3; ++i)
        if (S->sample_ok[i] == pass && S->samples[i][0]) {
          o << (shown ? "," : "") << "\n   " << jstr(S->samples[i]);
          ++shown;
        }
    o << "\n  ]\n },\n \"assumptions\": [";
    first = true;
    for (auto a : config.assumptions) {
      o << (first ? "" : ", ") << jstr(a);
      first = false;
    }
    o << "],\n \"wall_s\": " << (now_ms() - t0) / 1000.0 << ",\n \"violations\": " << found.size() << "\n}\n";
  }
  printf("%s: %llu cases (%llu distinct non-trivial), %llu operations, %.1f s, %u inconclusive, %u unconfirmed\n",
         config.id, (unsigned long long)S->evaluations, (unsigned long long)distinct, (unsigned long long)S->ops, search_s,
         inconclusive_workers, unconfirmed);
  for (auto &q : known)
    printf("KNOWN-FINDING: property=%s %s (hit %llu times in this run)\n", config.id, q.what.c_str(),
           (unsigned long long)q.n);
  if (exitcode == 1)
    printf("VIOLATION property=%s replay=%s\n", config.id, replay_path.c_str());
  else if (inconclusive_workers * 20 > total + 20 || inconclusive_workers > 50) {
    printf("ERROR: too many inconclusive cases\n");
    exitcode = 2;
  }
  rm_rf(scratch, true);
  return exitcode;
}
} // namespace vf

void vf_child_init() {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  if (getppid() == 1)
    _exit(1);
}

int main(int argc, char **argv) {
  if (argc >= 5 && !strcmp(argv[1], "--worker"))
    return vf::worker(atoi(argv[2]), atoi(argv[3]), atoi(argv[4]));
  if (argc >= 6 && !strcmp(argv[1], "--replayer"))
    return vf::replayer(atoi(argv[2]), atoi(argv[3]), atoi(argv[4]), argv[5], false);
  return vf::driver(argc, argv);
}
