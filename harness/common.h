// Shared runtime-monitoring harness for the dsharlet/array checks.
//
// A harness is one .cpp that registers GROUPs of cases. A case is a deterministic function of
// (seed, group, index): it drives the real library through its public API and lets monitors
// (oracles in this directory plus compiler sanitizers) judge what happened. Any monitor failure,
// failed library assertion, sanitizer report, crash or hang ends the process with exit code 3
// after printing the case so that it can be replayed with --only/--index.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H

#include <cassert>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VH_ASAN 1
#endif
#if __has_feature(thread_sanitizer)
#define VH_TSAN 1
#endif
#if __has_feature(memory_sanitizer)
#define VH_MSAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define VH_ASAN 1
#endif
#if defined(__SANITIZE_THREAD__)
#define VH_TSAN 1
#endif

#ifdef VH_ASAN
#include <sanitizer/asan_interface.h>
#define VH_POISON(p, n) __asan_poison_memory_region((p), (n))
#define VH_UNPOISON(p, n) __asan_unpoison_memory_region((p), (n))
#else
#define VH_POISON(p, n) ((void)(p), (void)(n))
#define VH_UNPOISON(p, n) ((void)(p), (void)(n))
#endif
#if defined(VH_ASAN) || defined(VH_TSAN) || defined(VH_MSAN)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#define VH_SAN 1
#endif

namespace vh {

// ---------------------------------------------------------------- random numbers
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  long below(long n) { return n <= 1 ? 0 : (long)(next() % (uint64_t)n); }
  long range(long lo, long hi) { return lo + below(hi - lo + 1); } // inclusive
  bool chance(int percent) { return below(100) < percent; }
  template <class T>
  T pick(std::initializer_list<T> l) {
    return *(l.begin() + below((long)l.size()));
  }
  template <class C>
  auto& of(C& c) {
    return c[below((long)c.size())];
  }
};

inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char* b = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull;
  return h;
}

// ---------------------------------------------------------------- case state and reporting
struct State {
  char desc[8192];
  size_t len = 0;
  const char* group = "(none)";
  long index = -1;
  bool nontrivial = false;
  uint64_t seed = 1;
  bool thorough = false;
  bool in_report = false;
  long evaluations = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, unsigned long long> counters;
  std::vector<std::string> samples;
  std::map<std::string, long> cases;
};
inline State& st() {
  static State* s = new State();
  return *s;
}

__attribute__((format(printf, 1, 2), noinline)) inline void desc(const char* fmt, ...) {
  State& s = st();
  va_list ap;
  va_start(ap, fmt);
  size_t left = sizeof(s.desc) - s.len;
  int n = vsnprintf(s.desc + s.len, left, fmt, ap);
  va_end(ap);
  if (n > 0) s.len += (size_t)n < left ? (size_t)n : left - 1;
}
inline void nontrivial() { st().nontrivial = true; }

inline void raw_write(const char* p, size_t n) {
  while (n > 0) {
    ssize_t k = ::write(1, p, n);
    if (k <= 0) return;
    p += k;
    n -= (size_t)k;
  }
}
// Async-signal-safe enough report of the current case.
inline void report_case(const char* kind, const char* msg) {
  State& s = st();
  if (s.in_report) return;
  s.in_report = true;
  fflush(stdout);
  static char buf[20000];
  int n = snprintf(buf, sizeof buf, "\nFAIL kind=%s group=%s index=%ld\nCASE %s\nWHAT %s\n", kind, s.group,
      s.index, s.desc, msg);
  if (n > 0) raw_write(buf, (size_t)n < sizeof buf ? (size_t)n : sizeof buf - 1);
}

__attribute__((format(printf, 1, 2), noreturn, noinline, cold)) inline void fail(const char* fmt, ...) {
  static char msg[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(msg, sizeof msg, fmt, ap);
  va_end(ap);
  report_case("monitor", msg);
  _exit(3);
}
// An error of the harness itself (never a violation).
__attribute__((format(printf, 1, 2), noreturn, noinline, cold)) inline void harness_error(const char* fmt, ...) {
  static char msg[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(msg, sizeof msg, fmt, ap);
  va_end(ap);
  report_case("harness", msg);
  _exit(5);
}

__attribute__((noinline)) inline void count(const char* name, unsigned long long n = 1) { st().counters[name] += n; }

#define CHECK(cond, ...)                                                                           \
  do {                                                                                             \
    if (!(cond)) ::vh::fail(__VA_ARGS__);                                                          \
  } while (0)
#define CHECK_EQ(a, b, what)                                                                       \
  do {                                                                                             \
    long long va_ = (long long)(a), vb_ = (long long)(b);                                          \
    if (va_ != vb_) ::vh::fail("%s: got %lld, expected %lld (%s:%d)", what, va_, vb_, __FILE__, __LINE__); \
  } while (0)
#define REQUIRE(cond)                                                                              \
  do {                                                                                             \
    if (!(cond)) ::vh::harness_error("harness precondition failed: %s (%s:%d)", #cond, __FILE__, __LINE__); \
  } while (0)

// ---------------------------------------------------------------- signals
inline void on_signal(int sig) {
  const char* what = sig == SIGABRT   ? "abort (failed assertion on a legal use, or terminate)"
                     : sig == SIGSEGV ? "SIGSEGV"
                     : sig == SIGBUS  ? "SIGBUS"
                     : sig == SIGFPE  ? "SIGFPE"
                     : sig == SIGILL  ? "SIGILL"
                     : sig == SIGPROF ? "CPU time limit for one case exceeded (hang)"
                                      : "signal";
  report_case(sig == SIGPROF ? "hang" : "crash", what);
  _exit(sig == SIGPROF ? 4 : 3);
}
inline void on_death() { report_case("sanitizer", "sanitizer report (see stderr)"); }

inline void arm(int seconds) {
  itimerval t;
  memset(&t, 0, sizeof t);
  t.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &t, nullptr);
}

inline void install_handlers() {
  static char* stack = (char*)malloc(1 << 17);
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_sp = stack;
  ss.ss_size = 1 << 17;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_ONSTACK;
  sigaction(SIGABRT, &sa, nullptr);
  sigaction(SIGPROF, &sa, nullptr);
#ifndef VH_SAN
  sigaction(SIGSEGV, &sa, nullptr);
  sigaction(SIGBUS, &sa, nullptr);
  sigaction(SIGFPE, &sa, nullptr);
  sigaction(SIGILL, &sa, nullptr);
#else
  __sanitizer_set_death_callback(on_death);
#endif
}

// ---------------------------------------------------------------- groups
struct Group {
  const char* name;
  long quick, thorough;
  void (*fn)(Rng&, long);
};
inline std::vector<Group>& groups() {
  static std::vector<Group>* g = new std::vector<Group>();
  return *g;
}
struct Reg {
  Reg(const char* n, long q, long t, void (*fn)(Rng&, long)) { groups().push_back({n, q, t, fn}); }
};
// Cases R (random source) and I (case index).
#define GROUP(name, q, t)                                                                          \
  static void grp_##name(::vh::Rng& R, long I);                                                    \
  static ::vh::Reg reg_##name(#name, q, t, grp_##name);                                            \
  static void grp_##name(::vh::Rng& R, long I)

// A probe is a single deterministic history run in a child process, whose failure is reported by
// key instead of ending the run: the driver compares keys with the known-findings file.
struct Probe {
  const char* key;
  void (*fn)();
};
inline std::vector<Probe>& probes() {
  static std::vector<Probe>* g = new std::vector<Probe>();
  return *g;
}
struct ProbeReg {
  ProbeReg(const char* k, void (*fn)()) { probes().push_back({k, fn}); }
};
#define PROBE(ident, key)                                                                          \
  static void probe_##ident();                                                                     \
  static ::vh::ProbeReg preg_##ident(key, probe_##ident);                                          \
  static void probe_##ident()

// Run fn in a child; returns the wait status. The child's stderr/stdout are silenced.
template <class Fn>
int run_child(Fn&& fn, bool quiet = true, int cpu_seconds = 60) {
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) harness_error("fork failed");
  if (pid == 0) {
    if (quiet) {
      int n = open("/dev/null", O_WRONLY);
      dup2(n, 1);
      dup2(n, 2);
    }
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    arm(cpu_seconds);
    fn();
    _exit(0);
  }
  int status = 0;
  while (waitpid(pid, &status, 0) < 0) {}
  return status;
}

inline int main_impl(int argc, char** argv) {
  State& s = st();
  std::string only;
  long only_index = -1, part = 0, parts = 1, scale = 100, cpu_limit = 120;
  const char* hashes = nullptr;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() -> const char* { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed") s.seed = strtoull(val(), 0, 10);
    else if (a == "--tier") s.thorough = !strcmp(val(), "thorough");
    else if (a == "--only") only = val();
    else if (a == "--index") only_index = atol(val());
    else if (a == "--part") part = atol(val());
    else if (a == "--parts") parts = atol(val());
    else if (a == "--scale") scale = atol(val());
    else if (a == "--cpu") cpu_limit = atol(val());
    else if (a == "--hashes") hashes = val();
    else harness_error("bad argument %s", a.c_str());
  }
  install_handlers();
  for (const Group& g : groups()) {
    if (!only.empty() && only != g.name) continue;
    long n = s.thorough ? g.thorough : g.quick;
    if (n > 64) n = n * scale / 100; // small groups are enumerations: always complete
    s.group = g.name;
    int shown = 0;
    for (long i = 0; i < n; i++) {
      if (only_index >= 0 && i != only_index) continue;
      if (i % parts != part) continue;
      s.index = i;
      s.len = 0;
      s.desc[0] = 0;
      s.nontrivial = false;
      arm((int)cpu_limit);
      Rng r(s.seed * 0x2545f4914f6cdd1dull ^ hash_bytes(g.name, strlen(g.name)) ^ ((uint64_t)i * 0xd6e8feb86659fd93ull));
      r.next();
      g.fn(r, i);
      s.evaluations++;
      s.cases[g.name]++;
      if (s.nontrivial) {
        uint64_t h = hash_bytes(s.desc, s.len, hash_bytes(g.name, strlen(g.name)));
        s.distinct.insert(h);
        if (shown < 2 && i >= 3) {
          shown++;
          s.samples.push_back(std::string(g.name) + "[" + std::to_string(i) + "]: " + std::string(s.desc, s.len < 400 ? s.len : 400));
        }
      }
    }
  }
  arm(0);
  if (only.empty() && part == 0) {
    s.group = "probe";
    for (const Probe& p : probes()) {
      s.len = 0;
      desc("probe %s", p.key);
      int w = run_child([&] { p.fn(); }, true);
      bool ok = WIFEXITED(w) && WEXITSTATUS(w) == 0;
      printf("PROBE key=%s status=%s wait=%d\n", p.key, ok ? "ok" : "fail", w);
      count("known_history_probes");
      s.evaluations++;
    }
  }
  if (hashes) {
    FILE* f = fopen(hashes, "wb");
    if (!f) harness_error("cannot write %s", hashes);
    for (uint64_t h : s.distinct) fwrite(&h, 8, 1, f);
    fclose(f);
  }
  auto esc = [](const std::string& x) {
    std::string o;
    for (char c : x) {
      if (c == '"' || c == '\\') { o += '\\'; o += c; }
      else if ((unsigned char)c < 32) o += ' ';
      else o += c;
    }
    return o;
  };
  printf("STATS {\"evaluations\": %ld, \"distinct\": %zu, \"counters\": {", s.evaluations, s.distinct.size());
  bool first = true;
  for (auto& c : s.counters) {
    printf("%s\"%s\": %llu", first ? "" : ", ", c.first.c_str(), c.second);
    first = false;
  }
  printf("}, \"groups\": {");
  first = true;
  for (auto& c : s.cases) {
    printf("%s\"%s\": %ld", first ? "" : ", ", c.first.c_str(), c.second);
    first = false;
  }
  printf("}, \"samples\": [");
  first = true;
  for (auto& c : s.samples) {
    printf("%s\"%s\"", first ? "" : ", ", esc(c).c_str());
    first = false;
  }
  printf("]}\n");
  fflush(stdout);
  return 0;
}

} // namespace vh

#define HARNESS_MAIN                                                                               \
  int main(int argc, char** argv) { return ::vh::main_impl(argc, argv); }

#endif
