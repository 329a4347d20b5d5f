// C28 across threads: transports and completions that call the client again,
// while other threads do the same.
#include "sched_client.h"
using namespace h;

enum { CALL_CHECK, CALL_QUOTA, CALL_REPORT, TICK, SYNC_CHECK, SYNC_REPORT };
static const char* const kNames[] = {"check", "quota", "report", "tick", "sync check", "sync report"};

static void Go(int ops) {
  std::unique_ptr<SClient> c;
  string what;
  std::vector<std::vector<int>> ops_of(2);
  std::vector<std::vector<int>> nested(2);
  std::map<int, int> serial;       // per controlled thread
  std::map<int, int> used;
  {
    sched::Ignore g;
    int cap = 1 + mc::choose(2, "capacity");
    int mode = INLINE_OK + mc::choose(2, "answers");
    for (int t = 0; t < 2; ++t) {
      for (int i = 0; i < ops; ++i) ops_of[t].push_back(mc::choose(6, "op"));
      nested[t].push_back(mc::choose(6, "nested"));
    }
    if (ops_of[1] < ops_of[0] || (ops_of[1] == ops_of[0] && nested[1] < nested[0])) return;
    what = mc::strf("capacity %d, answers %s:", cap, mode == INLINE_OK ? "ok" : "errors");
    for (int t = 0; t < 2; ++t) { what += " ["; for (int o : ops_of[t]) what += string(" ") + kNames[o]; what += mc::strf(", inside the first send: %s ]", kNames[nested[t][0]]); }
    if (mc::tracing()) mc::trace("%s", what.c_str());
    c.reset(new SClient(cap, cap, cap, INLINE_OK));
    for (int id = 0; id < cap; ++id)
      for (int k = 0; k < 3; ++k) { c->Async(8 * k + 2 * id, k, id); c->Async(8 * k + 2 * id + 1, k, id); }
    mc::advance_ms(1200);
    c->mode_ = mode;
  }
  auto doit = [&](int op, bool inner) {
    int me = sched::tid(), n;
    { sched::Ignore g; n = 24 + me * 8 + serial[me]++; }
    switch (op) {
      case CALL_CHECK: case CALL_QUOTA: case CALL_REPORT: c->Async(n, op, inner ? 6 : 5 - me % 2, op == CALL_CHECK && inner && false); break;
      case TICK: c->Tick(); break;
      case SYNC_CHECK: c->Sync(n, CHECK, inner ? 6 : 4 + me % 2); break;
      case SYNC_REPORT: c->Sync(n, REPORT, inner ? 6 : 4 + me % 2); break;
    }
  };
  c->after_send = [&](int, int) {
    int me = sched::tid();
    { sched::Ignore g; if (me < 1 || used[me]++) return; }
    doit(nested[me - 1][0], true);
  };
  std::vector<std::function<void()>> bodies;
  for (int t = 0; t < 2; ++t)
    bodies.push_back([&, t] { for (int o : ops_of[t]) { doit(o, false); mc::step(); } });
  RunThreads(bodies);
  sched::Ignore g;
  for (auto& kv : c->calls) MC_CHECK(kv.second.done == 1, "call %d completed %d times (%s)", kv.first, kv.second.done, what.c_str());
  string o = what;
  for (int k = 0; k < 3; ++k) o += mc::strf(" %d+%d", c->by_flush[k], c->in_flight[k]);
  mc::validated();
  mc::outcome(o);
  mc::state(o);
  c.reset();
}

int main(int argc, char** argv) {
  return mc::run_main(argc, argv, "C28", {
    {"threads-1", [](int) { Go(1); }, {0, 1}, {0, 1, 2}, "preemptions", false, "two threads with one call or tick each, their first send calls the client again"},
    {"threads-2", [](int) { Go(2); }, {0}, {0, 1}, "preemptions", false, "the same with two calls or ticks per thread"},
  });
}
