// C26: shutdown flushes everything and late events are harmless.
#include "sched_client.h"
using namespace h;

// What may happen while the client is destroyed.
enum { ANSWER_CHECK, ANSWER_QUOTA, ANSWER_REPORT, TICK, ERROR_CHECK, ERROR_QUOTA, NONE };
static const char* const kNames[] = {"check answer", "quota answer", "report answer", "tick", "check error", "quota error", "-"};
static void Event(SClient* c, int e, bool late) {
  switch (e) {
    case ANSWER_CHECK: case ERROR_CHECK: c->Complete(CHECK, e == ANSWER_CHECK); break;
    case ANSWER_QUOTA: case ERROR_QUOTA: c->Complete(QUOTA, e == ANSWER_QUOTA); break;
    case ANSWER_REPORT: c->Complete(REPORT, true); break;
    case TICK: c->Tick(late && !c->joining); break;
  }
}

static void Go(int threads, int len) {
  std::unique_ptr<SClient> c;
  int64_t check_usage = 0, report_usage = 0;
  int cap, age, mode;
  bool joining;
  std::vector<std::vector<int>> ev(threads);
  string what;
  {
    sched::Ignore g;
    cap = 1 + mc::choose(2, "capacity");
    age = mc::choose(3, "age");
    mode = mc::choose(2, "inline");
    joining = mc::choose(2, "timer") == 0;
    for (auto& t : ev) { for (int i = 0; i < len; ++i) t.push_back(mc::choose(6, "event")); }
    for (size_t i = 1; i < ev.size(); ++i) if (ev[i] < ev[i - 1]) return;      // thread order does not matter
    what = mc::strf("capacity %d, %s, transports %s, %s timer:", cap, age == 2 ? "due" : age ? "due and refreshed" : "fresh", mode ? "complete flushes inline" : "keep requests", joining ? "joining" : "non-joining");
    for (auto& t : ev) { what += " ["; for (int e : t) what += string(" ") + kNames[e]; what += " ]"; }
    if (mc::tracing()) mc::trace("%s", what.c_str());
    c.reset(new SClient(cap, cap, cap, INLINE_OK, joining));
    // Cached checks with usage, reports, quota tokens.
    for (int id = 0; id < cap; ++id) {
      c->Async(id, CHECK, id);
      c->Async(4 + id, CHECK, id); check_usage |= 16LL << id;
      c->Async(8 + id, REPORT, id); report_usage |= 256LL << id;
      c->Async(12 + id, QUOTA, id);
      c->Async(16 + id, QUOTA, id);
    }
    // Outstanding requests of other identities; nobody has answered them.
    if (age) mc::advance_ms(1200);
    c->mode_ = KEEP;
    c->Async(20, CHECK, 7, true);
    c->Async(21, CHECK, 8, true);
    c->Async(22, REPORT, 7, true);
    if (age == 1) c->Async(23, QUOTA, 0);   // makes the cache send what is due; otherwise a tick does
    if (mode) c->mode_ = INLINE_OK;
  }
  std::vector<std::function<void()>> bodies;
  bodies.push_back([&] {
    c->client.reset();
    sched::Ignore g;
    c->destroyed = true;
    mc::step();
    MC_CHECK(c->stops == 1, "the periodic timer was stopped %d times", c->stops);
  });
  for (auto& t : ev)
    bodies.push_back([&] { for (int e : t) { Event(c.get(), e, false); mc::step(); } });
  RunThreads(bodies);
  // Late events.
  if (!joining) c->Tick(true);
  for (int k = 0; k < 3; ++k) while (c->Complete(k, true)) mc::step();
  if (!joining) c->Tick(true);
  sched::Ignore g;
  for (auto& kv : c->calls) MC_CHECK(kv.second.done == 1, "call %d completed %d times", kv.first, kv.second.done);
  int64_t got = c->Flushed(CHECK);
  MC_CHECK(got == check_usage, "check usage sent: %llx, accumulated: %llx (%s)", (long long)got, (long long)check_usage, what.c_str());
  got = c->Flushed(REPORT);
  MC_CHECK(got == report_usage, "report usage sent: %llx, accepted: %llx (%s)", (long long)got, (long long)report_usage, what.c_str());
  string o = what;
  for (int k = 0; k < 3; ++k) o += mc::strf(" %d+%d", c->by_flush[k], c->in_flight[k]);
  mc::validated();
  mc::outcome(o);
  mc::state(o);
  c.reset();
}

int main(int argc, char** argv) {
  return mc::run_main(argc, argv, "C26", {
    {"1x1", [](int) { Go(1, 1); }, {0, 1, 2}, {0, 1, 2, 3}, "preemptions", false, "destruction against one event on another thread"},
    {"1x2", [](int) { Go(1, 2); }, {0, 1}, {0, 1, 2}, "preemptions", false, "destruction against two events on another thread"},
    {"2x1", [](int) { Go(2, 1); }, {0, 1}, {0, 1, 2}, "preemptions", false, "destruction against one event on each of two other threads"},
  });
}
