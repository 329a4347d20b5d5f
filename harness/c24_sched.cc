// C24: statistics stay exact and readable under concurrency.
#include "sched_client.h"
using namespace h;

enum { CALL_CHECK, CALL_QUOTA, CALL_REPORT, CALL_HIGH, CALL_NULL, TICK, ANSWER, OPS };
static const char* const kNames[] = {"check", "quota", "report", "report-high", "null-transport check", "tick", "answer"};
static const char* const kCounters[] = {"total_called_checks", "send_checks_by_flush", "send_checks_in_flight", "total_called_quotas", "send_quotas_by_flush",
                                        "send_quotas_in_flight", "total_called_reports", "send_reports_by_flush", "send_reports_in_flight", "send_report_operations"};
struct V { int64_t v[10]; };
static V Read(ServiceControlClient* c) {
  Statistics s;
  memset(&s, 0x5a, sizeof s);
  Status st = c->GetStatistics(&s);
  MC_CHECK(st.ok(), "GetStatistics returns %s", st.ToString().c_str());
  return {{(int64_t)s.total_called_checks, (int64_t)s.send_checks_by_flush, (int64_t)s.send_checks_in_flight, (int64_t)s.total_called_quotas, (int64_t)s.send_quotas_by_flush,
           (int64_t)s.send_quotas_in_flight, (int64_t)s.total_called_reports, (int64_t)s.send_reports_by_flush, (int64_t)s.send_reports_in_flight, (int64_t)s.send_report_operations}};
}

static void Go(int callers, int len, int reads) {
  std::unique_ptr<SClient> c;
  string what;
  std::vector<std::vector<int>> ops(callers);
  int64_t begun[3] = {0, 0, 0}, ended[3] = {0, 0, 0};
  {
    sched::Ignore g;
    int cap = mc::choose(2, "capacity"), mode = mc::choose(2, "answers") ? INLINE_OK : KEEP;
    bool primed = cap && mc::choose(2, "primed");
    for (auto& t : ops) for (int i = 0; i < len; ++i) t.push_back(mc::choose(OPS, "op"));
    for (int t = 1; t < callers; ++t) if (ops[t] < ops[t - 1]) return;
    what = mc::strf("capacity %d%s, transports %s:", cap, primed ? " with due entries" : "", mode == KEEP ? "keep requests" : "complete inline");
    for (auto& t : ops) { what += " ["; for (int o : t) what += string(" ") + kNames[o]; what += " ]"; }
    if (mc::tracing()) mc::trace("%s", what.c_str());
    c.reset(new SClient(cap, cap, cap, INLINE_OK));
    if (primed) {
      for (int k = 0; k < 3; ++k) for (int i = 0; i < 2; ++i) { c->Async(2 * k + i, k, 0); ++begun[k]; ++ended[k]; }
      mc::advance_ms(1200);
    }
    c->mode_ = mode;
  }
  V first = Read(c->client.get()), last = first;
  auto compare = [&](const int64_t* lo) {
    V now = Read(c->client.get());
    sched::Ignore g;
    if (mc::tracing()) { string t; for (int i = 0; i < 10; ++i) t += mc::strf(" %lld", (long long)now.v[i]); mc::trace("thread %d reads%s", sched::tid(), t.c_str()); }
    for (int i = 0; i < 10; ++i) {
      int64_t up = begun[std::min(i / 3, 2)];       // every send is for at least one call
      MC_CHECK(now.v[i] >= last.v[i], "%s goes back from %lld to %lld (%s)", kCounters[i], (long long)last.v[i], (long long)now.v[i], what.c_str());
      MC_CHECK(now.v[i] <= up, "%s is %lld after %lld calls (%s)", kCounters[i], (long long)now.v[i], (long long)up, what.c_str());
      if (i < 9 && i % 3 == 0) MC_CHECK(now.v[i] >= lo[i / 3], "%s is %lld after %lld calls have returned (%s)", kCounters[i], (long long)now.v[i], (long long)lo[i / 3], what.c_str());
    }
    last = now;
    mc::validated();
  };
  std::vector<std::function<void()>> bodies;
  for (int t = 0; t < callers; ++t)
    bodies.push_back([&, t] {
      for (int i = 0; i < len; ++i) {
        int n = 8 + t * 4 + i, o = ops[t][i];
        int kind = o <= CALL_REPORT ? o : o == CALL_HIGH ? REPORT : CHECK;
        bool call = o < TICK;
        if (call) { sched::Ignore g; ++begun[kind]; }
        if (o <= CALL_HIGH) c->Async(n, kind, t, o == CALL_HIGH);
        if (o == CALL_NULL) {
          CheckResponse r;
          int done = 0;
          c->client->Check(SClient::MakeCheck(n, t), &r, [&done](Status) { ++done; }, nullptr);
          MC_CHECK(done == 1, "call with a null transport completed %d times", done);
        }
        if (o == TICK) c->Tick();
        if (o == ANSWER) { for (int k = 0; k < 3; ++k) if (c->Complete(k, true)) break; }
        mc::step();
        if (call) { sched::Ignore g; ++ended[kind]; }
      }
    });
  if (reads)
    bodies.push_back([&] {
      for (int i = 0; i < reads; ++i) {
        int64_t lo[3];
        { sched::Ignore g; for (int k = 0; k < 3; ++k) lo[k] = ended[k]; }
        compare(lo);
      }
    });
  RunThreads(bodies);
  V end = Read(c->client.get());
  sched::Ignore g;
  int64_t want[10] = {begun[0], c->by_flush[0], c->in_flight[0], begun[1], c->by_flush[1], c->in_flight[1], begun[2], c->by_flush[2], c->in_flight[2], c->report_ops};
  string o = what;
  for (int i = 0; i < 10; ++i) {
    MC_CHECK(end.v[i] == want[i], "after everything has finished %s is %lld, expected %lld (%s)", kCounters[i], (long long)end.v[i], (long long)want[i], what.c_str());
    o += mc::strf(" %lld", (long long)end.v[i]);
  }
  mc::validated();
  mc::outcome(o);
  mc::state(o);
  while (!c->kept.empty()) c->Complete(c->kept[0].kind, true);
  c->mode_ = INLINE_OK;
  c.reset();
}

int main(int argc, char** argv) {
  return mc::run_main(argc, argv, "C24", {
    {"2x1", [](int) { Go(2, 1, 0); }, {0, 1, 2, 3}, {0, 1, 2, 3, 4}, "preemptions", false, "two threads with one call, tick or answer each; counters compared at the end"},
    {"1x1+reader", [](int) { Go(1, 1, 2); }, {0, 1, 2}, {0, 1, 2, 3}, "preemptions", false, "one call, tick or answer against a thread that reads twice"},
    {"2x1+reader", [](int) { Go(2, 1, 2); }, {0, 1}, {0, 1, 2}, "preemptions", false, "two threads and one that reads twice"},
    {"2x2", [](int) { Go(2, 2, 0); }, {0, 1}, {0, 1}, "preemptions", false, "two threads with two calls, ticks or answers each"},
    {"3x1", [](int) { Go(3, 1, 0); }, {0, 1}, {0, 1}, "preemptions", false, "three threads with one call, tick or answer each"},
  });
}
