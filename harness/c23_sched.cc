// C23: concurrent quota calls keep one allocation outstanding.
#include "sched_common.h"
using namespace h;

enum { QUOTA, GRANT, DENY, FLUSH, FLUSHALL };
static const char* const kNames[] = {"quota", "grant", "deny", "flush", "flush-all"};
static const int kSetups = 7;

struct Sut {
  std::unique_ptr<QuotaAggregator> agg;
  std::vector<std::pair<int, AllocateQuotaRequest>> pending;   // emitted, not answered
  std::multiset<string> flushed;
  int outstanding[2] = {0, 0}, most = 0, setup_;
  bool dropped_ = false;

  static AllocateQuotaRequest Make(int n, int id) {
    AllocateQuotaRequest q;
    q.set_service_name(kService);
    auto* op = q.mutable_allocate_operation();
    op->set_operation_id(mc::strf("oid-%d", n));
    op->set_method_name(id ? "method1" : "method0");
    op->set_consumer_id("project:a");
    op->set_quota_mode(QuotaOperation::BEST_EFFORT);
    (*op->mutable_labels())["k"] = "v";
    MetricValueSet* s = op->add_quota_metrics();
    s->set_metric_name("tokens");
    s->add_metric_values()->set_int64_value(1LL << n);
    return q;
  }
  static AllocateQuotaResponse Response(int n, bool grant) {
    AllocateQuotaResponse r;
    r.set_operation_id(mc::strf("resp-%d", n));
    if (!grant) r.add_allocate_errors()->set_code(::google::api::servicecontrol::v1::QuotaError::RESOURCE_EXHAUSTED);
    return r;
  }
  explicit Sut(int setup) : setup_(setup) {
    static const int caps[kSetups] = {2, 2, 2, 2, 1, 2, 2};
    agg = CreateAllocateQuotaAggregator(kService, kConfig, QuotaAggregationOptions(caps[setup], 500, 2000));
    agg->SetFlushCallback([this](const AllocateQuotaRequest& r) {
      sched::point();
      string t = SText(r);
      AllocateQuotaRequest c(r);
      sched::Ignore g;
      int id = r.allocate_operation().method_name() == "method1";
      most = std::max(most, ++outstanding[id]);
      pending.push_back({id, c});
      flushed.insert(t);
    });
    AllocateQuotaResponse resp;
    auto prime = [&](int id, int answer, bool usage) {
      (void)agg->Quota(Make(id, id), &resp);
      if (answer) Answer({answer == 1 ? GRANT : DENY, id}, 2 + id);
      if (usage) (void)agg->Quota(Make(4 + id, id), &resp);
    };
    switch (setup) {
      case 1: prime(0, 0, false); break;                               // in flight
      case 2: prime(0, 1, true); mc::advance_ms(600); break;           // granted, tokens held, due
      case 3: prime(0, 2, false); mc::advance_ms(600); break;          // denied, due
      case 4: prime(0, 1, true); break;                                // full
      case 5: prime(0, 1, true); prime(1, 1, true); mc::advance_ms(600); break;
      case 6: prime(0, 1, true); mc::advance_ms(2100); break;          // expired
    }
  }
  bool Ready(const SOp& op) {
    if (op.kind != GRANT && op.kind != DENY) return true;
    for (auto& p : pending) if (p.first == op.id) return true;
    return false;
  }
  string Answer(const SOp& op, int n) {
    AllocateQuotaRequest req;
    {
      sched::Ignore g;
      auto it = pending.begin();
      while (it != pending.end() && it->first != op.id) ++it;
      if (it == pending.end()) return "nothing to answer";
      req = it->second;
      pending.erase(it);
      --outstanding[op.id];
    }
    return "answered " + Code(agg->CacheResponse(req, Response(n, op.kind == GRANT)));
  }
  string Run(int thread, int index, const SOp& op) {
    const int n = 8 + thread * 5 + index;
    switch (op.kind) {
      case QUOTA: {
        AllocateQuotaRequest r = Make(n, op.id);
        AllocateQuotaResponse resp;
        Status s = agg->Quota(r, &resp);
        return Code(s) + SText(resp);
      }
      case GRANT: case DENY: return Answer(op, n);
      case FLUSH: return Code(agg->Flush());
      default: { sched::Ignore g; dropped_ = true; }
        return Code(agg->FlushAll());
    }
  }
  string Finish() {
    // One allocation outstanding, unless an entry went away meanwhile.
    if (setup_ != 4 && !dropped_) MC_CHECK(most <= 1, "%d allocations of one identity outstanding at a time", most);
    string o;
    AllocateQuotaResponse resp;
    for (int round = 0; round < 2; ++round) {
      for (int id = 0; id < 2; ++id) while (Ready({GRANT, id})) (void)Answer({GRANT, id}, 50 + id);
      if (round == 0) {
        for (int id = 0; id < 2; ++id) { Status s = agg->Quota(Make(40 + id, id), &resp); o += mc::strf("final %d %s %s; ", id, Code(s).c_str(), SText(resp).c_str()); }
        for (int id = 0; id < 2; ++id) while (Ready({GRANT, id})) (void)Answer({GRANT, id}, 60 + id);
        mc::advance_ms(600);
        (void)agg->Flush();
      }
    }
    for (auto& f : flushed) o += "sent " + f + "; ";
    return o;
  }
};

static void Go(int threads, int len, const std::vector<SOp>& alphabet) {
  int setup;
  Program p;
  string what;
  {
    sched::Ignore g;
    setup = mc::choose(kSetups, "set-up");
    p = ChooseProgram(threads, len, alphabet);
    what = mc::strf("set-up %d: ", setup) + ProgramText(p, kNames);
  }
  Linearizable<Sut>(setup, p, what);
}
static const std::vector<SOp> kAll = {{QUOTA, 0}, {GRANT, 0}, {DENY, 0}, {QUOTA, 1}, {GRANT, 1}, {FLUSH, 0}, {FLUSHALL, 0}};
static const std::vector<SOp> kCore = {{QUOTA, 0}, {GRANT, 0}, {DENY, 0}, {QUOTA, 1}, {FLUSH, 0}};

int main(int argc, char** argv) {
  return mc::run_main(argc, argv, "C23", {
    {"2x1", [](int) { Go(2, 1, kAll); }, {0, 1, 2, 3}, {0, 1, 2, 3, 4}, "preemptions", false, "two threads, one operation each, seven set-ups"},
    {"2x2", [](int) { Go(2, 2, kAll); }, {0, 1}, {0, 1, 2}, "preemptions", false, "two threads, two operations each, seven set-ups"},
    {"3x1", [](int) { Go(3, 1, kAll); }, {0, 1}, {0, 1, 2, 3}, "preemptions", false, "three threads, one operation each, seven set-ups"},
    {"2x3", [](int) { Go(2, 3, kCore); }, {}, {0, 1}, "preemptions", false, "two threads, three operations each, seven set-ups"},
  });
}
