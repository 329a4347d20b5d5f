#include <malloc.h>
#include "mc.h"

#include <dlfcn.h>
#include <errno.h>
#include <dirent.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <deque>
#include <map>
#include <set>

namespace mc {

volatile bool virtual_clock = false;
static const int64_t kEpochUs = 1600000000LL * 1000000LL;
int64_t now_us = kEpochUs;
int64_t mono_extra_us = 0;
void clock_reset() { now_us = kEpochUs; mono_extra_us = 0; }
void (*exec_wrapper)(const std::function<void()>&) = nullptr;
int exec_level = 0;

uint64_t real_ns() {
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return (uint64_t)ts.tv_sec * 1000000000ull + ts.tv_nsec;
}

namespace {

const int kExitFail = 98, kExitCrashAsan = 99, kExitRecycle = 76, kExitDiverged = 75;
const int kMaxWorkers = 64;
const int kQueue = 1024;
const int kItemBytes = 8192;
const int kMaxPoints = 60000;
const size_t kStates = 1u << 23;
const size_t kOutcomes = 1u << 18;
const int kOutcomeSamples = 24;
const int kKnown = 32;

struct Item { uint32_t len; uint8_t c[kItemBytes - 4]; };

struct Slot {
  std::atomic<int> running;
  std::atomic<uint64_t> start_ns;
  uint32_t len;
  uint8_t prefix[kMaxPoints];
  uint32_t fail_len;            // full choice vector at failure
  uint8_t fail_choices[kMaxPoints];
  char msg[16384];
  std::atomic<uint64_t> execs, steps, points, validated, pruned;
  int died;
};

struct KnownSlot { char key[120]; std::atomic<uint64_t> count; char msg[600]; };

struct Shared {
  pthread_mutex_t mu;
  std::atomic<int> stop;
  int busy, qhead, qlen;
  int max_choices;
  Item queue[kQueue];
  Slot slots[kMaxWorkers];
  std::atomic<uint64_t> nstates, noutcomes, merged_hits, saturated;
  std::atomic<uint64_t> states[kStates];
  std::atomic<uint64_t> outcomes[kOutcomes];
  std::atomic<int> nsamples;
  char sample[kOutcomeSamples][400];
  KnownSlot known[kKnown];
};

Shared* sh = nullptr;
int me = -1;                       // worker index; -1 in the parent/replay child
bool g_trace = false;
FILE* g_trace_out = nullptr;

// Current execution.
const uint8_t* x_prefix = nullptr;
uint32_t x_prefix_len = 0;
uint32_t x_idx = 0;
uint8_t x_choice[kMaxPoints];
uint8_t x_n[kMaxPoints];
uint64_t x_random = 0;             // != 0: sample execution, random beyond prefix
uint64_t l_steps, l_points, l_validated;

struct Prune {};

std::set<std::string> g_known_keys;
std::string g_property, g_workdir = "/tmp";

uint64_t mix(uint64_t x) {
  x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull;
  x ^= x >> 27; x *= 0x94d049bb133111ebull;
  x ^= x >> 31; return x;
}

// returns true if newly inserted
bool insert(std::atomic<uint64_t>* tab, size_t n, std::atomic<uint64_t>* count, uint64_t h) {
  if (h == 0) h = 1;
  size_t i = mix(h) & (n - 1);
  for (size_t probe = 0; probe < 256; ++probe, i = (i + 1) & (n - 1)) {
    uint64_t v = tab[i].load(std::memory_order_relaxed);
    if (v == h) return false;
    if (v == 0) {
      if (tab[i].compare_exchange_strong(v, h)) { count->fetch_add(1); return true; }
      if (v == h) return false;
    }
  }
  sh->saturated.fetch_add(1);
  return false;
}

}  // namespace

std::string strf(const char* fmt, ...) {
  char buf[4096];
  va_list ap; va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  return buf;
}

uint64_t hash(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return mix(h);
}

int choose(int n, const char* label) {
  if (n <= 1) return 0;
  if (n > 250) { fprintf(stderr, "choose(%d): alphabet too large\n", n); abort(); }
  if (x_idx >= (uint32_t)kMaxPoints) fail("execution does not terminate (more than %d decisions)", kMaxPoints);
  int c = 0;
  if (x_idx < x_prefix_len) {
    c = x_prefix[x_idx];
    if (c >= n) {
      fprintf(stderr, "DIVERGENCE at decision %u (%s): %d of %d\n", x_idx, label, c, n);
      _exit(kExitDiverged);
    }
  } else if (x_random) {
    x_random = mix(x_random + 0x9e3779b97f4a7c15ull);
    c = (x_random >> 20) % n;
  }
  x_choice[x_idx] = (uint8_t)c;
  x_n[x_idx] = (uint8_t)n;
  ++x_idx;
  ++l_points;
  return c;
}

void step() { ++l_steps; }
void validated() { ++l_validated; }
void state(uint64_t h) { if (me >= 0) insert(sh->states, kStates, &sh->nstates, h); }
void state(const std::string& s) { state(hash(s)); }
void outcome(const std::string& s) {
  if (me < 0) return;
  if (insert(sh->outcomes, kOutcomes, &sh->noutcomes, hash(s))) {
    int i = sh->nsamples.fetch_add(1);
    if (i < kOutcomeSamples) { strncpy(sh->sample[i], s.c_str(), 399); }
  }
}

bool seen(const std::string& s, int depth) {
  if (me < 0) return false;
  if (x_idx < x_prefix_len) return false;   // an ancestor execution was the first here
  uint64_t h = hash(s) & ~0xffull;
  if (h == 0) h = 0x100;
  if (depth > 254) depth = 254;
  size_t i = mix(h) & (kStates - 1);
  for (size_t probe = 0; probe < 256; ++probe, i = (i + 1) & (kStates - 1)) {
    uint64_t v = sh->states[i].load();
    for (;;) {
      if (v == 0) {
        if (sh->states[i].compare_exchange_strong(v, h | (depth + 1))) { sh->nstates.fetch_add(1); return false; }
        continue;
      }
      if ((v & ~0xffull) != h) break;
      int d = (int)(v & 0xff) - 1;
      if (d <= depth) { sh->merged_hits.fetch_add(1); return true; }
      if (sh->states[i].compare_exchange_strong(v, h | (depth + 1))) return false;
    }
  }
  sh->saturated.fetch_add(1);
  return false;
}

bool tracing() { return g_trace; }
void trace(const char* fmt, ...) {
  if (!g_trace) return;
  char buf[8192];
  va_list ap; va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (g_trace_out) { fprintf(g_trace_out, "%s\n", buf); fflush(g_trace_out); }
}

static void record_fail(const char* msg) {
  if (me >= 0) {
    Slot& s = sh->slots[me];
    strncpy(s.msg, msg, sizeof s.msg - 1);
    s.fail_len = x_idx;
    memcpy(s.fail_choices, x_choice, x_idx);
  }
}

void fail(const char* fmt, ...) {
  char buf[16000];
  va_list ap; va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  record_fail(buf);
  if (g_trace) trace("FAILED: %s", buf);
  if (me < 0) { printf("FAILED: %s\n", buf); fflush(stdout); }
  _exit(kExitFail);
}

bool is_known(const char* key) { return g_known_keys.count(key) > 0; }

void known(const char* key, const char* fmt, ...) {
  char buf[4000];
  va_list ap; va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (!is_known(key)) fail("[%s] %s", key, buf);
  trace("known finding %s: %s", key, buf);
  for (int i = 0; i < kKnown; ++i) {
    if (strcmp(sh->known[i].key, key) == 0) {
      if (sh->known[i].count.fetch_add(1) == 0) strncpy(sh->known[i].msg, buf, 599);
      return;
    }
  }
}

void prune() { throw Prune(); }

// ---------------------------------------------------------------------------
namespace {

void run_body(const Scenario& sc, int level) {
  clock_reset();
  exec_level = level;
  auto body = [&] {
    virtual_clock = true;
    sc.fn(level);
    virtual_clock = false;
  };
  if (exec_wrapper) exec_wrapper(body);
  else {
    try { body(); } catch (Prune&) { if (me >= 0) sh->slots[me].pruned++; }
  }
  virtual_clock = false;
}

// Under the controlled scheduler, lazily initialised globals would make the
// first execution of a process differ from all later ones.
void warm_up(const Scenario& sc, int level) {
  if (!exec_wrapper) return;
  bool t = g_trace; uint64_t r = x_random;
  const uint8_t* p = x_prefix; uint32_t n = x_prefix_len;
  g_trace = false; x_random = 0; x_prefix = nullptr; x_prefix_len = 0; x_idx = 0;
  run_body(sc, level);
  g_trace = t; x_random = r; x_prefix = p; x_prefix_len = n; x_idx = 0;
  l_steps = l_points = l_validated = 0;
}

size_t rss_bytes() {
  FILE* f = fopen("/proc/self/statm", "r");
  if (!f) return 0;
  long a = 0, b = 0;
  if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0;
  fclose(f);
  return (size_t)b * 4096;
}

typedef std::vector<uint8_t> Vec;

std::string spill_path(int w) { return g_workdir + strf("/spill.%d.%d", (int)getppid(), w); }

void pin_cpu(int w) {
  cpu_set_t all, one;
  if (sched_getaffinity(0, sizeof all, &all) != 0) return;
  int n = CPU_COUNT(&all);
  if (n <= 0) return;
  int want = w % n, k = 0;
  for (int c = 0; c < CPU_SETSIZE; ++c)
    if (CPU_ISSET(c, &all) && k++ == want) {
      CPU_ZERO(&one); CPU_SET(c, &one);
      sched_setaffinity(0, sizeof one, &one);
      return;
    }
}

[[noreturn]] void worker(const Scenario& sc, int level, int w, int nworkers, bool resume) {
  me = w;
  if (exec_wrapper) pin_cpu(w);
  Slot& slot = sh->slots[w];
  std::deque<Vec> local;
  if (resume) {
    std::string p = spill_path(w);
    FILE* f = fopen(p.c_str(), "rb");
    if (f) {
      uint32_t len;
      while (fread(&len, 4, 1, f) == 1) {
        Vec v(len);
        if (len && fread(v.data(), 1, len, f) != len) break;
        local.push_back(std::move(v));
      }
      fclose(f);
      unlink(p.c_str());
    }
  }
  bool busy = resume;    // a resumed worker is still counted busy
  uint64_t n_exec = 0;
  Vec cur;
  slot.len = 0;
  slot.start_ns.store(real_ns());
  slot.running.store(1);
  warm_up(sc, level);
  slot.running.store(0);
  for (;;) {
    if (sh->stop.load(std::memory_order_relaxed)) _exit(0);
    if (local.empty()) {
      pthread_mutex_lock(&sh->mu);
      if (busy) { sh->busy--; busy = false; }
      if (sh->qlen > 0) {
        Item& it = sh->queue[sh->qhead];
        cur.assign(it.c, it.c + it.len);
        sh->qhead = (sh->qhead + 1) % kQueue;
        sh->qlen--;
        sh->busy++;
        busy = true;
        pthread_mutex_unlock(&sh->mu);
      } else {
        bool done = sh->busy == 0;
        pthread_mutex_unlock(&sh->mu);
        if (done) _exit(0);
        struct timespec ts = {0, 200000};
        syscall(SYS_nanosleep, &ts, nullptr);
        continue;
      }
    } else {
      cur.swap(local.back());
      local.pop_back();
    }
    // run
    slot.len = cur.size();
    if (!cur.empty()) memcpy(slot.prefix, cur.data(), cur.size());
    slot.start_ns.store(real_ns());
    slot.running.store(1);
    x_prefix = cur.data(); x_prefix_len = cur.size(); x_idx = 0;
    run_body(sc, level);
    slot.running.store(0);
    ++n_exec; slot.execs.fetch_add(1, std::memory_order_relaxed);
    slot.steps.fetch_add(l_steps, std::memory_order_relaxed); l_steps = 0;
    slot.points.fetch_add(l_points, std::memory_order_relaxed); l_points = 0;
    slot.validated.fetch_add(l_validated, std::memory_order_relaxed); l_validated = 0;
    if (x_idx < x_prefix_len) {
      fprintf(stderr, "DIVERGENCE: execution ended after %u of %u decisions\n", x_idx, x_prefix_len);
      _exit(kExitDiverged);
    }
    if ((int)x_idx > sh->max_choices) sh->max_choices = x_idx;
    for (uint32_t i = x_prefix_len; i < x_idx; ++i) {
      for (int alt = x_n[i] - 1; alt >= 1; --alt) {
        Vec v(x_choice, x_choice + i + 1);
        v[i] = (uint8_t)alt;
        local.push_back(std::move(v));
      }
    }
    if (sh->qlen < 2 * nworkers && local.size() > 1) {
      pthread_mutex_lock(&sh->mu);
      while (sh->qlen < 4 * nworkers && sh->qlen < kQueue && local.size() > 1 &&
             local.front().size() < sizeof(Item::c)) {
        Item& it = sh->queue[(sh->qhead + sh->qlen) % kQueue];
        it.len = local.front().size();
        memcpy(it.c, local.front().data(), it.len);
        sh->qlen++;
        local.pop_front();
      }
      pthread_mutex_unlock(&sh->mu);
    }
    // Starting and ending threads leaves kernel memory behind until the process ends.
    if ((n_exec & 1023) == 0 && (rss_bytes() > (1800ull << 20) || (exec_wrapper && n_exec >= (20 << 10)))) {
      FILE* f = fopen(spill_path(w).c_str(), "wb");
      if (f) {
        for (auto& v : local) {
          uint32_t len = v.size();
          fwrite(&len, 4, 1, f);
          fwrite(v.data(), 1, len, f);
        }
        fclose(f);
        _exit(kExitRecycle);
      }
    }
  }
}

struct ReplayResult { bool reproduced = false; bool timeout = false; bool diverged = false; std::string msg; std::string trace_text; };

std::string slurp(const std::string& p, size_t max = 1 << 20) {
  std::string out;
  FILE* f = fopen(p.c_str(), "rb");
  if (!f) return out;
  char buf[65536];
  size_t n;
  while ((n = fread(buf, 1, sizeof buf, f)) > 0 && out.size() < max) out.append(buf, n);
  fclose(f);
  return out;
}

std::string crash_summary(const std::string& err, int status) {
  std::string out;
  size_t pos = 0;
  std::string first_frames;
  int frames = 0;
  while (pos < err.size()) {
    size_t e = err.find('\n', pos);
    if (e == std::string::npos) e = err.size();
    std::string l = err.substr(pos, e - pos);
    pos = e + 1;
    if (l.find("ERROR: AddressSanitizer") != std::string::npos ||
        l.find("Assertion") != std::string::npos || l.find("terminate called") != std::string::npos ||
        l.find("what():") != std::string::npos || l.find("SUMMARY:") != std::string::npos ||
        l.find("FATAL") != std::string::npos || l.find("runtime error") != std::string::npos) {
      if (out.size() < 1500) out += l + "; ";
    } else if (frames < 6 && l.find("    #") == 0 && (l.find("/repo/") != std::string::npos)) {
      size_t in = l.find(" in "), at = l.find("/repo/");
      std::string fn = in == std::string::npos ? l : l.substr(in + 4, std::min<size_t>(80, at - in - 4));
      first_frames += fn + " at " + l.substr(at) + " | "; ++frames;
    }
  }
  if (WIFSIGNALED(status)) out += strf("killed by signal %d", WTERMSIG(status));
  else out += strf("exit status %d", WEXITSTATUS(status));
  if (!first_frames.empty()) out += " [" + first_frames + "]";
  return out;
}

// A process that wants to run but got less than half of the time it waited: a
// stalled or crowded machine, not a hang.
static bool starved(pid_t pid, double waited) {
  double cpu = 0;
  bool runnable = false;
  DIR* d = opendir(strf("/proc/%d/task", (int)pid).c_str());
  if (!d) return false;
  while (struct dirent* e = readdir(d)) {
    if (e->d_name[0] == '.') continue;
    std::string t = slurp(strf("/proc/%d/task/%s/stat", (int)pid, e->d_name));
    size_t p = t.rfind(')');
    char state = 0;
    unsigned long u = 0, k = 0;
    if (p == std::string::npos || sscanf(t.c_str() + p + 1, " %c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &state, &u, &k) != 3) continue;
    cpu += (double)(u + k) / sysconf(_SC_CLK_TCK);
    if (state == 'R' || state == 'D') runnable = true;
  }
  closedir(d);
  return runnable && cpu < waited / 2;
}

// Runs one execution with the given choices in a child, tracing.
ReplayResult replay(const Scenario& sc, int level, const Vec& choices, int timeout_s, uint64_t random = 0) {
  ReplayResult r;
  std::string base = g_workdir + strf("/replay.%d", (int)getpid());
  std::string terr = base + ".err", ttr = base + ".trace", tout = base + ".out";
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open(terr.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    dup2(fd, 2);
    int fo = open(tout.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    dup2(fo, 1);
    me = -1;
    g_trace = true;
    g_trace_out = fopen(ttr.c_str(), "w");
    x_prefix = choices.data(); x_prefix_len = choices.size(); x_idx = 0; x_random = random;
    if (exec_wrapper) pin_cpu(getpid());
    warm_up(sc, level);
    run_body(sc, level);
    _exit(0);
  }
  uint64_t t0 = real_ns();
  int status = 0;
  for (;;) {
    pid_t p = waitpid(pid, &status, WNOHANG);
    if (p == pid) break;
    double waited = (real_ns() - t0) * 1e-9;
    if (waited > timeout_s && (waited > 6.0 * timeout_s || !starved(pid, waited))) {
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
      r.timeout = true;
      break;
    }
    struct timespec ts = {0, 2000000};
    syscall(SYS_nanosleep, &ts, nullptr);
  }
  r.trace_text = slurp(ttr);
  if (r.timeout) { r.reproduced = true; r.msg = strf("execution hangs (no progress within %d s)", timeout_s); }
  else if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {}
  else if (WIFEXITED(status) && WEXITSTATUS(status) == kExitDiverged) { r.diverged = true; }
  else if (WIFEXITED(status) && WEXITSTATUS(status) == kExitFail) {
    r.reproduced = true;
    std::string o = slurp(tout);
    size_t p = o.find("FAILED: ");
    r.msg = p == std::string::npos ? o : o.substr(p + 8);
    while (!r.msg.empty() && r.msg.back() == '\n') r.msg.pop_back();
  } else {
    r.reproduced = true;
    r.msg = "crash: " + crash_summary(slurp(terr), status);
  }
  unlink(terr.c_str()); unlink(ttr.c_str()); unlink(tout.c_str());
  return r;
}

std::string json_escape(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) o += strf("\\u%04x", c);
    else o += c;
  }
  return o;
}

struct LevelStat { int level; uint64_t execs, steps, points, validated, pruned; bool complete; double secs; };
struct ScStat {
  std::string name, level_name, what; bool merged;
  std::vector<LevelStat> levels; uint64_t states = 0, outcomes = 0, saturated = 0, merged_hits = 0; int max_choices = 0;
  std::vector<std::string> samples;
  bool determinism_checked = false;
};

struct Violation { bool found = false; std::string msg, path; };

std::string choices_text(const Vec& v) {
  std::string s;
  size_t end = v.size();
  while (end > 0 && v[end - 1] == 0) --end;
  for (size_t i = 0; i < end; ++i) { if (i) s += ' '; s += strf("%d", v[i]); }
  return s;
}

}  // namespace

int run_main(int argc, char** argv, const char* property, const std::vector<Scenario>& scenarios) {
  mallopt(M_PERTURB, 0x5a);    // fresh memory is never accidentally zero
  std::string tier = "quick", out, replay_file, replay_dir = "/tmp", only;
  double time_cap = 200;
  uint64_t seed = 1;
  int nworkers = 0, force_level = -1;
  bool list_only = false, first_only = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--tier") tier = next();
    else if (a == "--out") out = next();
    else if (a == "--seed") seed = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--time") time_cap = atof(next().c_str());
    else if (a == "--workers") nworkers = atoi(next().c_str());
    else if (a == "--replaydir") replay_dir = next();
    else if (a == "--replay") replay_file = next();
    else if (a == "--workdir") g_workdir = next();
    else if (a == "--scenario") only = next();
    else if (a == "--level") force_level = atoi(next().c_str());
    else if (a == "--known") g_known_keys.insert(next());
    else if (a == "--list") list_only = true;
    else if (a == "--first") first_only = true;
  }
  g_property = property;
  if (list_only) { for (auto& s : scenarios) printf("%s\n", s.name); return 0; }
  if (nworkers <= 0) {
    cpu_set_t all;
    nworkers = sched_getaffinity(0, sizeof all, &all) == 0 ? CPU_COUNT(&all) : 4;
  }
  nworkers = std::min(nworkers, kMaxWorkers);
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);

  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (sh == MAP_FAILED) { perror("mmap"); return 2; }
  {
    int k = 0;
    for (auto& key : g_known_keys) if (k < kKnown) strncpy(sh->known[k++].key, key.c_str(), 119);
  }

  if (!replay_file.empty()) {
    std::string text = slurp(replay_file);
    std::string scn; int level = 0; Vec ch;
    size_t pos = 0;
    while (pos < text.size()) {
      size_t e = text.find('\n', pos);
      if (e == std::string::npos) e = text.size();
      std::string l = text.substr(pos, e - pos);
      pos = e + 1;
      if (l.rfind("scenario=", 0) == 0) scn = l.substr(9);
      else if (l.rfind("level=", 0) == 0) level = atoi(l.c_str() + 6);
      else if (l.rfind("choices=", 0) == 0) {
        const char* q = l.c_str() + 8;
        char* end;
        for (;;) { long v = strtol(q, &end, 10); if (end == q) break; ch.push_back((uint8_t)v); q = end; }
        break;
      }
    }
    for (auto& s : scenarios) if (scn == s.name) {
      ReplayResult r = replay(s, level, ch, 120);
      printf("%s", r.trace_text.c_str());
      printf(r.reproduced ? "REPRODUCED: %s\n" : "NOT REPRODUCED%s\n", r.msg.c_str());
      return r.reproduced ? 1 : 0;
    }
    printf("no such scenario: %s\n", scn.c_str());
    return 2;
  }

  uint64_t t_begin = real_ns();
  auto elapsed = [&](uint64_t t0) { return (real_ns() - t0) / 1e9; };
  std::vector<ScStat> stats;
  Violation viol;
  bool machine_error = false;
  int n_sc = 0;
  for (auto& s : scenarios) if (only.empty() || only == s.name) ++n_sc;
  int sc_idx = 0;

  for (auto& sc : scenarios) {
    if (!only.empty() && only != sc.name) continue;
    if (viol.found || machine_error) break;
    // Time left is split evenly over the remaining scenarios.
    double sc_cap = (time_cap - elapsed(t_begin)) / (n_sc - sc_idx);
    if (sc_cap < 2) sc_cap = 2;
    ++sc_idx;
    uint64_t sc_t0 = real_ns();
    ScStat st;
    st.name = sc.name; st.level_name = sc.level_name; st.merged = sc.merged; st.what = sc.what;
    std::vector<int> levels = tier == "thorough" ? sc.thorough : sc.quick;
    if (first_only && levels.size() > 1) levels.resize(1);
    if (force_level >= 0) levels = {force_level};
    if (levels.empty()) continue;

    auto report = [&](int level, Vec choices, const std::string& hint) -> bool {
      ReplayResult r = replay(sc, level, choices, 30);
      if (!r.reproduced) r = replay(sc, level, choices, 30);
      if (!r.reproduced) {
        fprintf(stderr, "scenario %s: unconfirmed failure (%s)%s\n", sc.name, hint.c_str(), r.diverged ? " [diverged]" : "");
        return false;
      }
      mkdir(replay_dir.c_str(), 0755);
      std::string path = replay_dir + strf("/%s-%s-L%d.txt", property, sc.name, level);
      FILE* f = fopen(path.c_str(), "w");
      if (f) {
        fprintf(f, "property=%s\nscenario=%s\nlevel=%d\nchoices=%s\nmessage=%s\n--- trace ---\n%s",
                property, sc.name, level, choices_text(choices).c_str(), r.msg.c_str(), r.trace_text.c_str());
        fclose(f);
      }
      viol.found = true; viol.msg = strf("%s (%s %d): ", sc.name, sc.level_name, level) + r.msg; viol.path = path;
      return true;
    };

    // The default execution first, twice: it must be deterministic.
    {
      ReplayResult a = replay(sc, levels[0], Vec(), 30), b = replay(sc, levels[0], Vec(), 30);
      if (a.reproduced && b.reproduced) { report(levels[0], Vec(), a.msg); break; }
      if (a.trace_text != b.trace_text || a.reproduced != b.reproduced) {
        fprintf(stderr, "scenario %s: two runs of the same schedule differ\n", sc.name);
        machine_error = true; break;
      }
      st.determinism_checked = true;
    }

    for (size_t li = 0; li < levels.size() && !viol.found && !machine_error; ++li) {
      int level = levels[li];
      if (li > 0 && elapsed(sc_t0) > sc_cap * 0.9) {
        st.levels.push_back({level, 0, 0, 0, 0, 0, false, 0});
        break;
      }
      memset((void*)sh, 0, offsetof(Shared, slots));
      memset((void*)sh->slots, 0, sizeof sh->slots);
      memset((void*)&sh->nstates, 0, offsetof(Shared, known) - offsetof(Shared, nstates));
      pthread_mutexattr_t at;
      pthread_mutexattr_init(&at);
      pthread_mutexattr_setpshared(&at, PTHREAD_PROCESS_SHARED);
      pthread_mutex_init(&sh->mu, &at);
      sh->queue[0].len = 0; sh->qhead = 0; sh->qlen = 1;
      uint64_t l_t0 = real_ns();
      bool complete = true;
      std::vector<pid_t> pids(nworkers, -1);
      fflush(stdout); fflush(stderr);
      auto errfile = [&](int w) { return g_workdir + strf("/worker.%d.%d.err", (int)getpid(), w); };
      auto spawn = [&](int w, bool resume) {
        pid_t p = fork();
        if (p == 0) {
          int fd = open(errfile(w).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
          dup2(fd, 2);
          worker(sc, level, w, nworkers, resume);
        }
        pids[w] = p;
      };
      for (int w = 0; w < nworkers; ++w) spawn(w, false);
      int alive = nworkers;
      std::vector<std::pair<Vec, std::string>> failures;
      uint64_t cap_deadline = 0;
      bool at_cap = false;           // an execution was cut off by the time limit
      while (alive > 0) {
        struct timespec ts = {0, 1000000};
        syscall(SYS_nanosleep, &ts, nullptr);
        double cap_left = sc_cap - elapsed(sc_t0);
        if (cap_left <= 0 && !sh->stop.load()) { sh->stop = 1; complete = false; cap_deadline = real_ns() + 5000000000ull; }
        if (cap_deadline && real_ns() > cap_deadline + 5000000000ull)
          for (int w = 0; w < nworkers; ++w) if (pids[w] > 0) kill(pids[w], SIGKILL);
        for (int w = 0; w < nworkers; ++w) {
          if (pids[w] <= 0) continue;
          Slot& s = sh->slots[w];
          int status;
          pid_t p = waitpid(pids[w], &status, WNOHANG);
          if (p == 0) {
            uint64_t since = s.start_ns.load();
            if (s.running.load() && (int64_t)(real_ns() - since) > (cap_deadline ? 4000000000ll : 15000000000ll) && (!sh->stop.load() || cap_deadline)) {
              Vec v(s.prefix, s.prefix + s.len);
              kill(pids[w], SIGKILL);
              waitpid(pids[w], &status, 0);
              pids[w] = -1; --alive;
              failures.push_back({v, "hang"});
              if (cap_deadline) at_cap = true;
              sh->stop = 1; complete = false;
            }
            continue;
          }
          if (p != pids[w]) continue;
          pids[w] = -1; --alive;
          if (WIFEXITED(status) && WEXITSTATUS(status) == 0) { unlink(errfile(w).c_str()); continue; }
          if (WIFEXITED(status) && WEXITSTATUS(status) == kExitRecycle) { s.running = 0; spawn(w, true); ++alive; continue; }
          if (sh->stop.load() && cap_deadline) { complete = false; unlink(errfile(w).c_str()); continue; }
          complete = false;
          if (WIFEXITED(status) && WEXITSTATUS(status) == kExitFail)
            failures.push_back({Vec(s.fail_choices, s.fail_choices + s.fail_len), s.msg});
          else if (WIFEXITED(status) && WEXITSTATUS(status) == kExitDiverged) {
            fprintf(stderr, "scenario %s: %s", sc.name, slurp(errfile(w)).c_str());
            machine_error = true;
          } else {
            failures.push_back({Vec(s.prefix, s.prefix + s.len), "crash: " + crash_summary(slurp(errfile(w)), status)});
          }
          sh->stop = 1;
          unlink(errfile(w).c_str());
        }
      }
      LevelStat ls{level, 0, 0, 0, 0, 0, false, 0};
      for (int w = 0; w < nworkers; ++w) {
        ls.execs += sh->slots[w].execs; ls.steps += sh->slots[w].steps;
        ls.points += sh->slots[w].points; ls.validated += sh->slots[w].validated; ls.pruned += sh->slots[w].pruned;
      }
      ls.complete = complete && sh->saturated.load() == 0;
      ls.secs = elapsed(l_t0);
      st.levels.push_back(ls);
      st.states = sh->nstates; st.outcomes = sh->noutcomes; st.saturated = sh->saturated;
      st.merged_hits = sh->merged_hits; st.max_choices = sh->max_choices;
      if (!failures.empty()) {
        // shortest choice vector first
        std::sort(failures.begin(), failures.end(), [](auto& a, auto& b) { return a.first.size() < b.first.size(); });
        bool ok = false;
        for (auto& f : failures) if (report(level, f.first, f.second)) { ok = true; break; }
        // A hang that does not repeat was the machine's (a stalled or crowded
        // host): the level is incomplete, nothing more.
        bool stalled = true;
        for (auto& f : failures) if (f.second != "hang") stalled = false;
        if (!ok && !at_cap && !stalled) machine_error = true;
        else if (ok) machine_error = false;
      }
      printf("  %-28s %s=%d: %lu executions, %lu steps, %lu states, %lu outcomes%s (%.1fs)\n", sc.name, sc.level_name,
             level, ls.execs, ls.steps, (unsigned long)st.states, (unsigned long)st.outcomes,
             ls.complete ? ", complete" : ", NOT complete", ls.secs);
      fflush(stdout);
      if (!complete) break;
    }
    // Samples: two pseudo-random executions, written out.
    if (!viol.found && !machine_error) {
      int level = levels.back();
      for (size_t i = 0; i < st.levels.size(); ++i) if (st.levels[i].complete) level = st.levels[i].level;
      for (int k = 0; k < 2; ++k) {
        ReplayResult r = replay(sc, level, Vec(), 30, mix(seed * 1000 + k + 1) | 1);
        std::string t = r.trace_text;
        if (t.size() > 1500) t = t.substr(0, 1500) + " ...";
        st.samples.push_back(t);
      }
      int ns = std::min<int>(sh->nsamples.load(), 3);
      for (int i = 0; i < ns; ++i) st.samples.push_back(std::string("outcome: ") + sh->sample[i]);
    }
    stats.push_back(st);
  }

  // ---- stats file
  if (!out.empty()) {
    FILE* f = fopen(out.c_str(), "w");
    if (!f) { perror("out"); return 2; }
    fprintf(f, "{\"property\":\"%s\",\"wall_s\":%.2f,\"scenarios\":[", property, elapsed(t_begin));
    for (size_t i = 0; i < stats.size(); ++i) {
      auto& s = stats[i];
      fprintf(f, "%s{\"name\":\"%s\",\"level_name\":\"%s\",\"what\":\"%s\",\"merged\":%s,\"states\":%lu,\"outcomes\":%lu,\"saturated\":%lu,\"merged_hits\":%lu,\"max_choices\":%d,\"determinism_checked\":%s,\"levels\":[",
              i ? "," : "", s.name.c_str(), s.level_name.c_str(), json_escape(s.what).c_str(), s.merged ? "true" : "false",
              s.states, s.outcomes, s.saturated, s.merged_hits, s.max_choices, s.determinism_checked ? "true" : "false");
      for (size_t j = 0; j < s.levels.size(); ++j) {
        auto& l = s.levels[j];
        fprintf(f, "%s{\"level\":%d,\"execs\":%lu,\"steps\":%lu,\"points\":%lu,\"validated\":%lu,\"pruned\":%lu,\"complete\":%s,\"secs\":%.2f}",
                j ? "," : "", l.level, l.execs, l.steps, l.points, l.validated, l.pruned, l.complete ? "true" : "false", l.secs);
      }
      fprintf(f, "],\"samples\":[");
      for (size_t j = 0; j < s.samples.size(); ++j) fprintf(f, "%s\"%s\"", j ? "," : "", json_escape(s.samples[j]).c_str());
      fprintf(f, "]}");
    }
    fprintf(f, "],\"known\":[");
    bool first = true;
    for (int i = 0; i < kKnown; ++i) if (sh->known[i].key[0] && sh->known[i].count.load()) {
      fprintf(f, "%s{\"key\":\"%s\",\"count\":%lu,\"msg\":\"%s\"}", first ? "" : ",", json_escape(sh->known[i].key).c_str(),
              sh->known[i].count.load(), json_escape(sh->known[i].msg).c_str());
      first = false;
    }
    fprintf(f, "],\"violation\":%s,\"message\":\"%s\",\"replay\":\"%s\",\"machine_error\":%s}\n", viol.found ? "true" : "false",
            json_escape(viol.msg).c_str(), viol.path.c_str(), machine_error ? "true" : "false");
    fclose(f);
  }
  if (viol.found) { printf("violation: %s\nreplay: %s\n", viol.msg.c_str(), viol.path.c_str()); return 1; }
  if (machine_error) return 3;
  return 0;
}

}  // namespace mc

// ---- clock interposition ----------------------------------------------------
extern "C" {
int gettimeofday(struct timeval* tv, void* tz) noexcept {
  if (mc::virtual_clock) {
    tv->tv_sec = mc::now_us / 1000000; tv->tv_usec = mc::now_us % 1000000;
    return 0;
  }
  return syscall(SYS_gettimeofday, tv, tz);
}
int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
  if (mc::virtual_clock && (id == CLOCK_REALTIME || id == CLOCK_MONOTONIC)) {
    int64_t us = mc::now_us + (id == CLOCK_MONOTONIC ? mc::mono_extra_us : 0);
    ts->tv_sec = us / 1000000; ts->tv_nsec = (us % 1000000) * 1000;
    return 0;
  }
  return syscall(SYS_clock_gettime, id, ts);
}
time_t time(time_t* t) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
const char* __asan_default_options() {
  return "detect_leaks=0:exitcode=99:quarantine_size_mb=4:handle_abort=1:allocator_may_return_null=1:"
         "detect_stack_use_after_return=0:print_legend=0:malloc_context_size=6";
}
}
