// Bounded exhaustive exploration engine.
//
// A scenario is a function that runs one complete execution of the code under
// test and asks the engine for every nondeterministic decision through
// choose().  The engine enumerates *all* choice vectors within the scenario's
// level (operation-sequence depth, preemption bound, ...), re-executing the
// scenario from scratch for each of them, in parallel forked workers.
#ifndef VERIF_MC_H_
#define VERIF_MC_H_
#include <cstdarg>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace mc {

// ---- decisions -----------------------------------------------------------
// Returns a value in [0, n); explored exhaustively.
int choose(int n, const char* label = "");
// ---- bookkeeping of what was covered ---------------------------------------
void step();                          // one transition of the system under test
uint64_t hash(const std::string& s);
void state(uint64_t h);               // a state that was reached
void state(const std::string& s);
void outcome(const std::string& s);   // final observation of an execution
void validated();                     // a model step agreed with the implementation
// State-merged exploration: true if this model state was already reached with
// at most `depth` steps (then the caller should prune()).
bool seen(const std::string& canonical_state, int depth);
// ---- verdicts --------------------------------------------------------------
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// A violation identified by `key`.  If the key is listed as a known finding it
// is counted and the execution continues; otherwise it fails.
void known(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
bool is_known(const char* key);
[[noreturn]] void prune();            // abandon this execution (sequential harnesses only)
// ---- tracing (only active during replay and for samples) ------------------
bool tracing();
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// ---- virtual clock ----------------------------------------------------------
extern volatile bool virtual_clock;
extern int64_t now_us;                // read by gettimeofday & co. while virtual_clock
void clock_reset();
extern int64_t mono_extra_us;         // what CLOCK_MONOTONIC shows beyond that
inline void advance_ms(int64_t ms) { now_us += ms * 1000; }
inline void advance_us(int64_t us) { now_us += us; }

struct Scenario {
  const char* name;
  std::function<void(int level)> fn;
  std::vector<int> quick;             // levels explored by the quick tier
  std::vector<int> thorough;          // levels explored by the thorough tier
  const char* level_name;             // "depth", "preemptions", ...
  bool merged = false;                // state-merged (otherwise stateless)
  const char* what = "";              // one line for the evidence file
};

int run_main(int argc, char** argv, const char* property,
             const std::vector<Scenario>& scenarios);

// Installed by the scheduler runtime: wraps a scenario execution.
extern void (*exec_wrapper)(const std::function<void()>&);
extern int exec_level;
uint64_t real_ns();                   // monotonic real time (engine use only)
// Called at most once per process before exploring: one free execution that
// initialises lazily built globals outside of any control.
std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
}  // namespace mc

#define MC_CHECK(c, ...) do { if (!(c)) ::mc::fail(__VA_ARGS__); } while (0)
#endif
