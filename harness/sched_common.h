// Concurrent programs under the controlled scheduler.
#ifndef VERIF_SCHED_COMMON_H_
#define VERIF_SCHED_COMMON_H_
#include <thread>
#include "common.h"
#include "vsched.h"

namespace h {
// Runs the bodies as threads, all created before the first one starts.
inline void RunThreads(const std::vector<std::function<void()>>& bodies) {
  std::vector<std::thread> ts;
  {
    sched::Ignore i;
    for (auto& b : bodies) ts.emplace_back(b);
  }
  for (auto& t : ts) t.join();
}

struct SOp { int kind, id; };
typedef std::vector<std::vector<SOp>> Program;

// Chooses a program of `threads` threads with `len` operations each out of
// `alphabet`; thread order does not matter, so only sorted ones are made.
inline Program ChooseProgram(int threads, int len, const std::vector<SOp>& alphabet) {
  Program p(threads);
  std::vector<int> prev;
  for (auto& t : p) {
    std::vector<int> cur;
    bool tight = !prev.empty();
    for (int i = 0; i < len; ++i) {
      int lo = tight ? prev[i] : 0, n = alphabet.size();
      int c = lo + mc::choose(n - lo, "op");
      if (c > lo) tight = false;
      cur.push_back(c);
      t.push_back(alphabet[c]);
    }
    prev = cur;
  }
  return p;
}
// The text of a message, taken outside of the scheduler's control (reflection
// takes locks); the copy makes the message's contents part of race detection.
template <class M> string SText(const M& m) { M c(m); sched::Ignore i; return Text(c); }
inline string ProgramText(const Program& p, const char* const* names) {
  string s;
  for (auto& t : p) {
    if (!s.empty()) s += " || ";
    for (size_t i = 0; i < t.size(); ++i) s += mc::strf("%s%s%d", i ? ";" : "", names[t[i].kind], t[i].id);
  }
  return s;
}

// Linearizability of whole programs: the outcome (every operation's result and
// everything the system did in the end) of a concurrent execution must be the
// outcome of running the same operations one at a time in some order.  Sut:
//   Sut(int setup)                   the sequential beginning
//   string Run(int thread, int index, const SOp&)
//   bool Ready(const SOp&)           false: the operation waits for others
//   string Finish()                  drain; what was observed
template <class Sut> const std::set<string>& Sequential(int setup, const Program& p, const string& key) {
  static std::map<string, std::set<string>> cache;
  auto it = cache.find(key);
  if (it != cache.end()) return it->second;
  std::set<string>& out = cache[key];
  int total = 0;
  for (auto& t : p) total += t.size();
  const int64_t start = mc::now_us;
  std::vector<int> order;
  std::function<void()> rec = [&] {
    // Replay the prefix, then try every thread that may go next.
    mc::now_us = start;
    Sut s(setup);
    std::vector<size_t> pos(p.size(), 0);
    std::map<string, string> res;
    for (int t : order) { res[mc::strf("%d.%zu", t, pos[t])] = s.Run(t, pos[t], p[t][pos[t]]); ++pos[t]; }
    if ((int)order.size() == total) {
      string o;
      for (auto& kv : res) o += kv.first + "=" + kv.second + "; ";
      out.insert(o + s.Finish());
      return;
    }
    bool any = false;
    for (size_t t = 0; t < p.size(); ++t) any |= pos[t] < p[t].size() && s.Ready(p[t][pos[t]]);
    for (size_t t = 0; t < p.size(); ++t)
      if (pos[t] < p[t].size() && (!any || s.Ready(p[t][pos[t]]))) { order.push_back(t); rec(); order.pop_back(); }
  };
  rec();
  mc::now_us = start;
  return out;
}

template <class Sut> void Linearizable(int setup, const Program& p, const string& what) {
  const std::set<string>* want;
  { sched::Ignore i; want = &Sequential<Sut>(setup, p, what); }
  std::unique_ptr<Sut> s;
  std::vector<std::vector<string>> res(p.size());
  std::vector<int> gate(p.size(), -1);      // operation a thread is about to start; -1: in one, -2: finished
  auto stuck = [&] {
    for (size_t t = 0; t < p.size(); ++t) if (gate[t] == -1 || (gate[t] >= 0 && s->Ready(p[t][gate[t]]))) return false;
    return true;
  };
  { sched::Ignore i; s.reset(new Sut(setup)); for (size_t t = 0; t < p.size(); ++t) res[t].resize(p[t].size()); }
  // The set-up happened before the threads start: no races with it.
  std::vector<std::function<void()>> bodies;
  for (size_t t = 0; t < p.size(); ++t)
    bodies.push_back([&, t] {
      for (size_t i = 0; i < p[t].size(); ++i) {
        {
          sched::Ignore g;
          gate[t] = i;
          sched::wait_until([&] { return s->Ready(p[t][i]) || stuck(); }, "something to answer");
          gate[t] = -1;
        }
        string r = s->Run(t, i, p[t][i]);
        sched::Ignore g;
        if (mc::tracing()) mc::trace("thread %zu operation %zu -> %s", t, i, r.c_str());
        res[t][i] = r;
        mc::step();
      }
      sched::Ignore g;
      gate[t] = -2;
    });
  if (mc::tracing()) mc::trace("program: %s", what.c_str());
  RunThreads(bodies);
  sched::Ignore g;
  string o;
  for (size_t t = 0; t < p.size(); ++t) for (size_t i = 0; i < p[t].size(); ++i) o += mc::strf("%zu.%zu=", t, i) + res[t][i] + "; ";
  o += s->Finish();
  if (!want->count(o)) {
    string w;
    for (auto& x : *want) if (w.size() < 6000) w += "\n    " + x;
    mc::fail("%s: the outcome is that of no sequential order\n  outcome: %s\n  sequential outcomes (%zu):%s", what.c_str(), o.c_str(), want->size(), w.c_str());
  }
  mc::validated();
  mc::outcome(what + " => " + o);
  mc::state(what + o);
}
}  // namespace h
#endif
