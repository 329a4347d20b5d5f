// C25: synchronous calls wake up once with their own result.
#include "sched_client.h"
using namespace h;

// How a request is completed.
enum { INLINE, OWN_THREAD, WORKER, HOWS };
static const char* const kHows[] = {"inline", "by a thread of its own", "by a shared worker"};

struct Caller { std::vector<int> kinds, ids; std::vector<bool> ok; int how; };

static void Go(int callers, int len, bool vary_ids) {
  std::unique_ptr<SClient> c;
  std::vector<Caller> cs(callers);
  string what;
  bool cached;
  {
    sched::Ignore g;
    cached = mc::choose(2, "cache");
    for (int t = 0; t < callers; ++t) {
      Caller& x = cs[t];
      for (int i = 0; i < len; ++i) {
        x.kinds.push_back(mc::choose(3, "kind"));
        bool same = t > 0 && x.kinds[i] == cs[t - 1].kinds[i];
        x.ids.push_back(vary_ids && same ? mc::choose(2, "id") : 0);
        // With several callers only the first one's request can fail.
        bool sent = !(cached && x.kinds[i] == REPORT);
        x.ok.push_back(t > 0 || !sent || mc::choose(2, "ok") == 0);
      }
      // Cached reports are not sent.
      bool any = !cached;
      for (int k : x.kinds) any |= k != REPORT;
      x.how = any ? mc::choose(HOWS, "completion") : (int)INLINE;
      if (callers > 2 && t > 0 && std::make_pair(x.kinds, x.how) < std::make_pair(cs[t - 1].kinds, cs[t - 1].how)) return;
    }
    what = mc::strf("caches %s:", cached ? "on" : "off");
    for (auto& x : cs) { what += " ["; for (int i = 0; i < len; ++i) what += mc::strf(" %s%d %s", kKinds[x.kinds[i]], x.ids[i], x.ok[i] ? "ok" : "error"); what += mc::strf(", completed %s ]", kHows[x.how]); }
    if (mc::tracing()) mc::trace("%s", what.c_str());
    int cap = cached ? 2 : 0;
    c.reset(new SClient(cap, cap, cap, KEEP));
  }
  // Requests waiting for the shared worker; completing threads.
  std::vector<std::pair<int, bool>> queue;
  std::vector<std::thread> own;
  int finished = 0, sends = 0;
  std::map<int, int> now;                  // thread -> operation it is in
  c->after_send = [&](int kind, int n) {
    Kept k;
    int how = INLINE; bool ok = true;
    {
      sched::Ignore g;
      ++sends;
      int me = sched::tid() - 1;
      k = c->kept.back();
      c->kept.pop_back();
      if (me >= 0 && me < callers) { how = cs[me].how; ok = cs[me].ok[now[me]]; }
      if (how == WORKER) { c->kept.push_back(k); queue.push_back({kind, ok}); }
      if (how == OWN_THREAD) { own.emplace_back([k, ok] { k.complete(ok); }); }
    }
    if (how == INLINE) k.complete(ok);
    if (how == OWN_THREAD) sched::point();
    sched::Ignore g;
    k.complete = nullptr;
  };
  std::vector<std::function<void()>> bodies;
  for (int t = 0; t < callers; ++t)
    bodies.push_back([&, t] {
      for (int i = 0; i < len; ++i) {
        int n = t * 4 + i;
        { sched::Ignore g; now[t] = i; }
        c->Sync(n, cs[t].kinds[i], cs[t].ids[i], !cached && cs[t].kinds[i] != QUOTA);
        mc::step();
        sched::Ignore g;
        const SCall& r = c->calls[n];
        string got = r.kind == CHECK ? r.check.operation_id() : r.kind == QUOTA ? r.quota.operation_id() : r.report.report_errors_size() ? r.report.report_errors(0).operation_id() : "";
        string own_answer = "server-" + r.op;
        if (mc::tracing()) mc::trace("thread %d: %s %s returns %s, '%s'", t + 1, kKinds[r.kind], r.op.c_str(), r.status.ToString().c_str(), got.c_str());
        if (!r.status.ok()) {
          MC_CHECK(!cs[t].ok[i] && r.status.code() == StatusCode::kUnavailable && r.status.message() == own_answer, "%s call %s returns %s (%s)", kKinds[r.kind], r.op.c_str(), r.status.ToString().c_str(), what.c_str());
          continue;
        }
        bool mine = got == own_answer && cs[t].ok[i];
        if (!mine && cached) {
          // Answered by the cache: a report, a provisional or cached quota answer, a cached check of this identity.
          if (r.kind == REPORT) mine = got.empty();
          if (r.kind == QUOTA && got.empty()) mine = true;
          for (auto& kv : c->calls) if (r.kind != REPORT && kv.second.kind == r.kind && kv.second.id == r.id && got == "server-" + kv.second.op) mine = true;
        }
        MC_CHECK(mine, "%s call %s returns OK with '%s' (%s)", kKinds[r.kind], r.op.c_str(), got.c_str(), what.c_str());
      }
      sched::Ignore g;
      ++finished;
    });
  bool worker = false;
  for (auto& x : cs) worker |= x.how == WORKER;
  if (worker)
    bodies.push_back([&] {
      for (;;) {
        std::pair<int, bool> q;
        {
          sched::Ignore g;
          sched::wait_until([&] { return !queue.empty() || finished == callers; }, "work");
          if (queue.empty()) return;
          q = queue.front();
          queue.erase(queue.begin());
        }
        c->Complete(q.first, q.second);
      }
    });
  RunThreads(bodies);
  for (auto& t : own) t.join();
  sched::Ignore g;
  c->after_send = nullptr;
  c->mode_ = INLINE_OK;
  string o = what + mc::strf(" sends=%d", sends);
  for (auto& kv : c->calls) o += kv.second.status.ok() ? "+" : "-";
  mc::validated();
  mc::outcome(o);
  mc::state(o);
  c.reset();
}

int main(int argc, char** argv) {
  return mc::run_main(argc, argv, "C25", {
    {"1x1", [](int) { Go(1, 1, false); }, {0, 1, 2, 3}, {0, 1, 2, 3, 4, 5}, "preemptions", false, "one synchronous call, every kind, completion style and result"},
    {"2x1", [](int) { Go(2, 1, true); }, {0, 1}, {0, 1, 2, 3}, "preemptions", false, "two concurrent synchronous calls on the same or different identities"},
    {"1x2", [](int) { Go(1, 2, false); }, {0, 1, 2}, {0, 1, 2, 3}, "preemptions", false, "two synchronous calls in a row"},
    {"2x2", [](int) { Go(2, 2, false); }, {}, {0, 1}, "preemptions", false, "two concurrent callers with two calls each"},
    {"3x1", [](int) { Go(3, 1, false); }, {}, {0, 1}, "preemptions", false, "three concurrent synchronous calls"},
  });
}
