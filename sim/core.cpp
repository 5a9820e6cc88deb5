#include "core.hpp"
#include "machine.hpp"
#include <cerrno>
#include <csignal>
#include <exception>
#include <new>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <cxxabi.h>
#include <fcntl.h>

namespace sim {
Shared *sh;
bool replaying, verbose;
std::string prop;
Counter counters[MAXCOUNTERS];
static Rng rng;
static std::vector<uint32_t> script;
static size_t script_pos;

static std::vector<World> &worlds() {
  static std::vector<World> w;
  return w;
}
Register::Register(const char *name, void (*run)()) { worlds().push_back({name, run}); }

Counter *counter(const char *name) {
  for (auto &c : counters) {
    if (!c.name) {
      c.name = name;
      return &c;
    }
    if (!strcmp(c.name, name))
      return &c;
  }
  abort();
}
void count_slow(const char *name, uint64_t n) { counter(name)->n += n; }

uint32_t choose(uint32_t n) {
  if (n <= 1)
    return 0;
  uint32_t v;
  if (replaying) {
    v = script_pos < script.size() ? script[script_pos++] : 0;
    if (v >= n)
      v = v % n;
  } else {
    v = uint32_t((unsigned __int128)rng.next() * n >> 64);
  }
  if (sh->nchoices < Shared::MAXC)
    sh->choices[sh->nchoices] = v;
  sh->nchoices++;
  sh->hash = (sh->hash ^ v) * 0x100000001b3ull;
  return v;
}
uint64_t bits64() {
  uint64_t r = 0;
  for (int i = 0; i < 4; ++i)
    r = r << 16 | choose(65536);
  return r;
}
void span() {
  if (sh->nspans < Shared::MAXS)
    sh->spans[sh->nspans++] = sh->nchoices;
}

uint64_t fnv(const void *p, size_t n, uint64_t h) {
  auto b = static_cast<const uint8_t *>(p);
  for (size_t i = 0; i < n; ++i)
    h = (h ^ b[i]) * 0x100000001b3ull;
  return h;
}
void mix(uint64_t v) {
  sh->hash ^= v;
  sh->hash *= 0x9E3779B97F4A7C15ull;
  sh->hash ^= sh->hash >> 29;
}
void mix(const void *p, size_t n) { mix(fnv(p, n)); }
void note(const char *fmt, ...) {
  if (!verbose)
    return;
  va_list ap;
  va_start(ap, fmt);
  vfprintf(stdout, fmt, ap);
  va_end(ap);
  fputc('\n', stdout);
  fflush(stdout);
}
std::string hex(const void *p, size_t n, size_t max) {
  std::string r;
  char b[4];
  for (size_t i = 0; i < n && i < max; ++i) {
    snprintf(b, sizeof b, "%02x", static_cast<const uint8_t *>(p)[i]);
    r += b;
  }
  if (n > max)
    r += "...(" + std::to_string(n) + ")";
  return r;
}

// distinct abstract states: HyperLogLog-free, plain open table with saturation
static const size_t STATES = 1u << 20;
static uint64_t *state_tab;
static uint64_t state_count, state_lost;
void state(uint64_t f) {
  if (!state_tab)
    state_tab = static_cast<uint64_t *>(mmap(nullptr, STATES * 8, PROT_READ | PROT_WRITE,
                                             MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  f = (f ^ (f >> 31)) * 0x9E3779B97F4A7C15ull;
  f |= 1;
  for (size_t i = 0; i < 16; ++i) {
    uint64_t &e = state_tab[(f >> 40 ^ f >> 17 ^ i) & (STATES - 1)];
    if (e == f)
      return;
    if (!e) {
      e = f;
      ++state_count;
      return;
    }
  }
  ++state_lost;
}

void fail(const char *oracle, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  snprintf(sh->oracle, sizeof sh->oracle, "%s", oracle);
  vsnprintf(sh->detail, sizeof sh->detail, fmt, ap);
  va_end(ap);
  sh->status = 2;
  if (verbose) {
    printf("VIOLATED %s: %s\n", sh->oracle, sh->detail);
    fflush(stdout);
  }
  _exit(3);
}

//---------------------------------------------------------------- one run
static void on_signal(int sig) {
  if (sh->status == 0) {
    snprintf(sh->oracle, sizeof sh->oracle, "crash.%s",
             sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGBUS ? "SIGBUS"
             : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : "hang");
    snprintf(sh->detail, sizeof sh->detail, "the simulated run died by signal %d", sig);
    sh->status = 2;
  }
  _exit(3);
}
static void install_signals() {
  static char alt[64 * 1024];
  stack_t ss{};
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF})
    sigaction(s, &sa, nullptr);
}

// a run which burns this much processor time is stuck (ordinary runs take milliseconds)
#if defined(__SANITIZE_ADDRESS__) || defined(SIM_THR)
static unsigned hang_limit = 20;
#else
static unsigned hang_limit = 8;
#endif
static double longest_run_s;
static void hang_guard(unsigned seconds) {
  itimerval tv{};
  if (!seconds) {
    getitimer(ITIMER_PROF, &tv);
    double spent = hang_limit - (tv.it_value.tv_sec + tv.it_value.tv_usec * 1e-6);
    if (spent > longest_run_s)
      longest_run_s = spent;
    tv = itimerval{};
  } else
    tv.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &tv, nullptr);
}

static void run_world(const World &w, uint64_t seed) {
  sh->seed = seed;
  sh->nchoices = sh->nspans = 0;
  sh->hash = 0xcbf29ce484222325ull;
  sh->status = 0;
  sh->oracle[0] = sh->detail[0] = 0;
  rng.seed(seed);
  script_pos = 0;
  disarm_alloc_fault();
  machine::reset();
  in_lib = 0;
  hang_guard(hang_limit);
  try {
    w.run();
  } catch (const std::exception &e) {
    int st;
    char *n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
    fail("unexpected-exception", "%s: %s", n ? n : typeid(e).name(), e.what());
  }
  hang_guard(0);
  sh->status = 1;
}

static Shared *map_shared(const char *path) {
  void *p;
  if (path) {
    int fd = open(path, O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(Shared)))
      exit(2);
    p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
  } else
    p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED)
    exit(2);
  return static_cast<Shared *>(p);
}

struct Outcome {
  uint32_t status = 0;
  uint64_t hash = 0;
  std::string oracle, detail;
  std::vector<uint32_t> choices, spans;
};

// run once in a forked child
static Outcome attempt(const World &w, uint64_t seed, const std::vector<uint32_t> *scr,
                       bool quiet = true) {
  fflush(stdout);
  fflush(stderr);
  sh->status = 0;
  sh->oracle[0] = 0;
  pid_t pid = fork();
  if (pid == 0) {
    if (quiet) {
      int fd = open("/dev/null", O_WRONLY);
      dup2(fd, 2);
      if (!verbose)
        dup2(fd, 1);
    }
    if (scr) {
      replaying = true;
      script = *scr;
    }
    run_world(w, seed);
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  Outcome o;
  if (sh->status == 0) { // died without reporting (ASan abort, SIGKILL, ...)
    if (WIFEXITED(st) && WEXITSTATUS(st) == 99) {
      o.oracle = "crash.asan";
      o.detail = "AddressSanitizer reported a memory error";
    } else if (WIFSIGNALED(st)) {
      o.oracle = "crash.signal" + std::to_string(WTERMSIG(st));
      o.detail = "killed by signal";
    } else {
      o.oracle = "crash.exit" + std::to_string(WEXITSTATUS(st));
      o.detail = "exited unexpectedly";
    }
    o.status = 2;
  } else {
    o.status = sh->status;
    o.oracle = sh->oracle;
    o.detail = sh->detail;
  }
  o.hash = sh->hash;
  uint32_t n = sh->nchoices < Shared::MAXC ? sh->nchoices : Shared::MAXC;
  o.choices.assign(sh->choices, sh->choices + n);
  o.spans.assign(sh->spans, sh->spans + sh->nspans);
  return o;
}

static double now_s() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static std::string jstr(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += char(c);
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else
      r += char(c);
  }
  return r + "\"";
}

// shrink a choice sequence keeping the same oracle
static Outcome minimise(const World &w, uint64_t seed, Outcome best, double budget) {
  const double t0 = now_s();
  const unsigned limit = hang_limit;
  if (best.oracle == "crash.hang")
    hang_limit = 3;
  struct Restore {
    unsigned v;
    ~Restore() { hang_limit = v; }
  } restore{limit};
  auto good = [&](const std::vector<uint32_t> &c) {
    Outcome o = attempt(w, seed, &c);
    if (o.status == 2 && o.oracle == best.oracle &&
        (o.choices.size() < best.choices.size() ||
         (o.choices.size() == best.choices.size() && o.choices < best.choices))) {
      best = o;
      return true;
    }
    return false;
  };
  bool improved = true;
  while (improved && now_s() - t0 < budget) {
    improved = false;
    // 1. delete runs of operations (span-aligned)
    for (size_t len = best.spans.size(); len >= 1; len = len > 1 ? len / 2 : 0) {
      for (size_t i = 0; i + len <= best.spans.size() && now_s() - t0 < budget;) {
        size_t a = best.spans[i];
        size_t b = i + len < best.spans.size() ? best.spans[i + len] : best.choices.size();
        if (b > best.choices.size())
          b = best.choices.size();
        if (a >= b) {
          ++i;
          continue;
        }
        auto c = best.choices;
        c.erase(c.begin() + a, c.begin() + b);
        if (good(c))
          improved = true;
        else
          i += len > 1 ? len / 2 : 1;
      }
    }
    // 2. delete small chunks of choices
    if (best.choices.size() < 3000)
      for (size_t len : {8, 4, 2, 1})
        for (size_t i = 0; i + len <= best.choices.size() && now_s() - t0 < budget;) {
          auto c = best.choices;
          c.erase(c.begin() + i, c.begin() + i + len);
          if (good(c))
            improved = true;
          else
            i += len;
        }
    // 3. lower values
    if (best.choices.size() < 3000)
      for (size_t i = 0; i < best.choices.size() && now_s() - t0 < budget; ++i) {
        if (!best.choices[i])
          continue;
        auto c = best.choices;
        c[i] = 0;
        if (good(c)) {
          improved = true;
          continue;
        }
        c = best.choices;
        if (i < c.size() && c[i] > 1) {
          c[i] /= 2;
          if (good(c))
            improved = true;
        }
      }
  }
  return best;
}

static void write_replay(FILE *f, const World &w, uint64_t seed, const Outcome &o,
                         const std::string &original) {
  fprintf(f, "{\"property\": %s, \"world\": %s, \"seed\": %llu, \"oracle\": %s,\n \"detail\": %s,\n",
          jstr(prop).c_str(), jstr(w.name).c_str(), (unsigned long long)seed, jstr(o.oracle).c_str(),
          jstr(o.detail).c_str());
  fprintf(f, " \"hash\": \"%016llx\", \"original_choices\": %s, \"choices\": [",
          (unsigned long long)o.hash, original.c_str());
  for (size_t i = 0; i < o.choices.size(); ++i)
    fprintf(f, "%s%u", i ? "," : "", o.choices[i]);
  fprintf(f, "]}\n");
}

static bool read_replay(const char *path, std::string &world, uint64_t &seed, Outcome &o) {
  FILE *f = fopen(path, "r");
  if (!f)
    return false;
  std::string s;
  char b[65536];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0)
    s.append(b, n);
  fclose(f);
  auto str = [&](const char *key) {
    std::string k = std::string("\"") + key + "\": \"";
    size_t p = s.find(k);
    if (p == std::string::npos)
      return std::string();
    p += k.size();
    std::string r;
    while (p < s.size() && s[p] != '"') {
      if (s[p] == '\\')
        ++p;
      r += s[p++];
    }
    return r;
  };
  world = str("world");
  prop = str("property");
  o.oracle = str("oracle");
  o.detail = str("detail");
  o.hash = strtoull(str("hash").c_str(), nullptr, 16);
  size_t p = s.find("\"seed\": ");
  seed = strtoull(s.c_str() + p + 8, nullptr, 10);
  p = s.find("\"choices\": [");
  if (p == std::string::npos)
    return false;
  const char *q = s.c_str() + p + 12;
  while (*q && *q != ']') {
    o.choices.push_back(uint32_t(strtoul(q, const_cast<char **>(&q), 10)));
    if (*q == ',')
      ++q;
  }
  return true;
}
} // namespace sim

using namespace sim;

extern "C" __attribute__((weak)) const char *__asan_default_options() {
  return "exitcode=99:detect_leaks=0:abort_on_error=0:handle_segv=0:handle_abort=0:"
         "allocator_may_return_null=1:detect_odr_violation=0:allocator_release_to_os_interval_ms=-1:"
         "quarantine_size_mb=4:malloc_context_size=6";
}

int main(int argc, char **argv) {
  // fixed address space layout: one seed is one execution
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC")) {
    if (personality(pers | ADDR_NO_RANDOMIZE) != -1) {
      setenv("SIM_NO_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  setvbuf(stdout, nullptr, _IOLBF, 0);
  std::map<std::string, std::string> opt;
  std::string cmd = argc > 1 ? argv[1] : "";
  for (int i = 2; i < argc; ++i) {
    std::string a = argv[i];
    size_t e = a.find('=');
    opt[a.substr(0, e)] = e == std::string::npos ? "1" : a.substr(e + 1);
  }
  auto num = [&](const char *k, uint64_t d) {
    return opt.count(k) ? strtoull(opt[k].c_str(), nullptr, 0) : d;
  };
  verbose = opt.count("verbose");
  prop = opt["prop"];
  const World *w = nullptr;
  auto find = [&](const std::string &n) {
    for (auto &x : worlds())
      if (n == x.name)
        w = &x;
    if (!w) {
      fprintf(stderr, "no such world '%s'\n", n.c_str());
      exit(2);
    }
  };
  if (cmd == "run") { // worker: seeds first, first+stride, ... until count/time is up
    find(opt["world"]);
    sh = map_shared(opt.count("status") ? opt["status"].c_str() : nullptr);
    install_signals();
    const uint64_t first = num("first", 1), stride = num("stride", 1), count = num("count", 0);
    const double secs = opt.count("secs") ? atof(opt["secs"].c_str()) : 1e9;
    const double t0 = now_s();
    uint64_t runs = 0, hashsum = 0, longest = 0, total_choices = 0;
    for (uint64_t i = 0; count == 0 || i < count; ++i) {
      if (now_s() - t0 >= secs)
        break;
      run_world(*w, first + i * stride);
      ++runs;
      sh->runs = runs;
      hashsum = hashsum * 31 + sh->hash;
      total_choices += sh->nchoices;
      if (sh->nchoices > longest)
        longest = sh->nchoices;
    }
    printf("{\"runs\": %llu, \"secs\": %.2f, \"hashsum\": \"%016llx\", \"states\": %llu, \"states_lost\": %llu, "
           "\"choices\": %llu, \"longest\": %llu, \"longest_run_s\": %.3f, \"counters\": {",
           (unsigned long long)runs, now_s() - t0, (unsigned long long)hashsum,
           (unsigned long long)state_count, (unsigned long long)state_lost,
           (unsigned long long)total_choices, (unsigned long long)longest, longest_run_s);
    bool sep = false;
    for (auto &c : counters)
      if (c.name) {
        printf("%s\"%s\": %llu", sep ? ", " : "", c.name, (unsigned long long)c.n);
        sep = true;
      }
    printf("}}\n");
    return 0;
  }
  if (cmd == "min") { // gate (same seed twice) + minimise + write replay file
    find(opt["world"]);
    sh = map_shared(nullptr);
    install_signals();
    const uint64_t seed = num("seed", 1);
    Outcome a = attempt(*w, seed, nullptr), b = attempt(*w, seed, nullptr);
    if (a.status != 2 || b.status != 2 || (a.hash != b.hash && a.oracle != "crash.hang") || a.oracle != b.oracle) {
      printf("GATE-MISMATCH seed=%llu status %u/%u oracle '%s'/'%s' hash %016llx/%016llx\n",
             (unsigned long long)seed, a.status, b.status, a.oracle.c_str(), b.oracle.c_str(),
             (unsigned long long)a.hash, (unsigned long long)b.hash);
      return 4;
    }
    const std::string orig = std::to_string(a.choices.size());
    Outcome c = attempt(*w, seed, &a.choices);
    if (c.status != 2 || c.oracle != a.oracle) {
      printf("GATE-MISMATCH choice replay of seed %llu gives status %u oracle '%s' instead of '%s'\n",
             (unsigned long long)seed, c.status, c.oracle.c_str(), a.oracle.c_str());
      return 4;
    }
    Outcome m = minimise(*w, seed, c, opt.count("budget") ? atof(opt["budget"].c_str()) : 20);
    FILE *f = fopen(opt["out"].c_str(), "w");
    if (!f)
      return 2;
    write_replay(f, *w, seed, m, orig);
    fclose(f);
    printf("MINIMISED seed=%llu choices %s -> %zu oracle=%s detail=%s\n", (unsigned long long)seed,
           orig.c_str(), m.choices.size(), m.oracle.c_str(), m.detail.c_str());
    return 1;
  }
  if (cmd == "replay") {
    std::string wn;
    uint64_t seed;
    Outcome e;
    if (!read_replay(opt["file"].c_str(), wn, seed, e))
      return 2;
    find(wn);
    sh = map_shared(nullptr);
    install_signals();
    Outcome a = attempt(*w, seed, &e.choices, !verbose);
    if (a.status == 2 && a.oracle == e.oracle && (a.hash == e.hash || a.oracle == "crash.hang")) {
      printf("REPRODUCED property=%s oracle=%s %s\n", prop.c_str(), a.oracle.c_str(), a.detail.c_str());
      return 1;
    }
    printf("NOT-REPRODUCED status=%u oracle='%s' (%s) hash=%016llx expected oracle='%s' hash=%016llx\n", a.status,
           a.oracle.c_str(), a.detail.c_str(), (unsigned long long)a.hash, e.oracle.c_str(),
           (unsigned long long)e.hash);
    return a.status == 2 ? 5 : 0;
  }
  if (cmd == "one") { // run one seed verbosely
    find(opt["world"]);
    sh = map_shared(nullptr);
    install_signals();
    verbose = true;
    run_world(*w, num("seed", 1));
    printf("OK hash=%016llx choices=%u\n", (unsigned long long)sh->hash, sh->nchoices);
    return 0;
  }
  fprintf(stderr, "usage: sim run|min|replay|one key=value...\n");
  return 2;
}
