// C21: concurrent reports and flushes lose nothing.
#include "sched_common.h"
using namespace h;

enum { REPORT, BOTH, BIG, HIGH, WRONG, FLUSH, FLUSHALL, EMPTY };
static const char* const kNames[] = {"report", "report-two", "report-big", "report-high", "wrong-service", "flush", "flush-all", "report-nothing"};
static const int kSetups = 6;

struct Run {
  std::unique_ptr<ReportAggregator> agg;
  std::vector<ReportRequest> sent;
  std::map<int, int> accepted;      // serial -> identity

  static void Add(ReportRequest* r, int n, int id, int logs) {
    Operation* op = r->add_operations();
    op->set_operation_id(mc::strf("oid-%d", n));
    op->set_operation_name(mc::strf("op%d", id));
    op->set_consumer_id("project:a");
    SetTs(op->mutable_start_time(), 1000 - n);
    SetTs(op->mutable_end_time(), 1000 + n);
    (*op->mutable_labels())["id"] = mc::strf("%d", id);
    (*op->mutable_labels())["k"] = "v";
    (*AddInt64(op, "m", 1LL << n)->mutable_labels())["side"] = "x";
    for (int i = 0; i < logs; ++i) op->add_log_entries()->set_text_payload(mc::strf("%d", n));
  }
  explicit Run(int setup) {
    static const int caps[kSetups] = {2, 1, 2, 1, 0, 2};
    agg = CreateReportAggregator(kService, kConfig, ReportAggregationOptions(caps[setup], 500), nullptr);
    agg->SetFlushCallback([this](const ReportRequest& r) {
      sched::point();
      ReportRequest c(r);
      sched::Ignore g;
      sent.push_back(c);
    });
    auto prime = [&](int id, int logs) {
      ReportRequest r;
      r.set_service_name(kService);
      Add(&r, id, id, logs);
      if (agg->Report(r).ok()) accepted[id] = id;
    };
    switch (setup) {
      case 1: prime(0, 1); break;                                   // full
      case 2: prime(0, 1); prime(1, 1); mc::advance_ms(600); break; // both due
      case 3: prime(0, 98); break;                                  // nearly too big
      case 5: prime(0, 98); prime(1, 1); mc::advance_ms(600); break;
    }
  }
  // Serials 4.. ; two per operation.
  void Do(int thread, int index, const SOp& op) {
    int n = 4 + 2 * (thread * 4 + index);
    ReportRequest r;
    r.set_service_name(op.kind == WRONG ? "other" : kService);
    std::vector<std::pair<int, int>> ops;
    if (op.kind == REPORT || op.kind == HIGH || op.kind == WRONG) ops = {{n, op.id}};
    if (op.kind == BIG) ops = {{n, op.id}};
    if (op.kind == BOTH) ops = {{n, op.id}, {n + 1, 1 - op.id}};
    for (auto& o : ops) Add(&r, o.first, o.second, op.kind == BIG ? 100 : 1);
    if (op.kind == HIGH) r.mutable_operations(0)->set_importance(Operation::HIGH);
    if (op.kind == FLUSH || op.kind == FLUSHALL) {
      Status s = op.kind == FLUSH ? agg->Flush() : agg->FlushAll();
      MC_CHECK(s.ok(), "flush returns %s", s.ToString().c_str());
      return;
    }
    Status s = agg->Report(r);
    sched::Ignore g;
    if (op.kind == WRONG) { MC_CHECK(s.code() == StatusCode::kInvalidArgument, "report for another service returns %s", s.ToString().c_str()); return; }
    if (op.kind == HIGH) { MC_CHECK(s.code() == StatusCode::kNotFound, "important report returns %s", s.ToString().c_str()); return; }
    if (s.code() == StatusCode::kNotFound) return;     // handed back to the caller
    MC_CHECK(s.ok(), "report returns %s", s.ToString().c_str());
    for (auto& o : ops) accepted[o.first] = o.second;
  }
  string Finish() {
    (void)agg->FlushAll();
    std::set<int> got;
    string out;
    for (auto& r : sent) {
      MC_CHECK(r.operations_size() <= 10 && r.operations_size() > 0, "request with %d operations", r.operations_size());
      MC_CHECK(r.service_name() == kService && r.service_config_id() == kConfig, "request for service '%s' config '%s'", r.service_name().c_str(), r.service_config_id().c_str());
      std::multiset<string> text;
      for (auto& op : r.operations()) {
        int64_t mask = 0, want = 0;
        for (auto& s : op.metric_value_sets()) for (auto& v : s.metric_values()) mask += v.int64_value();
        std::map<int, int> logs;
        for (auto& l : op.log_entries()) ++logs[atoi(l.text_payload().c_str())];
        for (auto& l : logs) {
          MC_CHECK(accepted.count(l.first), "report #%d was not accepted but is sent", l.first);
          MC_CHECK(got.insert(l.first).second, "report #%d is sent twice", l.first);
          MC_CHECK(op.operation_name() == mc::strf("op%d", accepted[l.first]), "report #%d of identity %d is credited to %s", l.first, accepted[l.first], op.operation_name().c_str());
          want += 1LL << l.first;
        }
        MC_CHECK(mask == want, "amounts sent differ from the reports they stand for: %s", Text(op).c_str());
        text.insert(mc::strf("%lld", (long long)mask));
      }
      for (auto& t : text) out += t + ",";
      out += ";";
    }
    for (auto& a : accepted) MC_CHECK(got.count(a.first), "accepted report #%d of identity %d was never sent", a.first, a.second);
    return out;
  }
};

static void Go(int threads, int len, const std::vector<SOp>& alphabet) {
  int setup;
  Program p;
  string what;
  std::unique_ptr<Run> r;
  {
    sched::Ignore g;
    setup = mc::choose(kSetups, "set-up");
    p = ChooseProgram(threads, len, alphabet);
    what = mc::strf("set-up %d: ", setup) + ProgramText(p, kNames);
    r.reset(new Run(setup));
  }
  if (mc::tracing()) mc::trace("program: %s", what.c_str());
  std::vector<std::function<void()>> bodies;
  for (size_t t = 0; t < p.size(); ++t)
    bodies.push_back([&, t] { for (size_t i = 0; i < p[t].size(); ++i) { r->Do(t, i, p[t][i]); mc::step(); } });
  RunThreads(bodies);
  sched::Ignore g;
  string o = r->Finish();
  mc::validated();
  mc::outcome(what + " => " + o);
  mc::state(what + o);
  r.reset();
}
static const std::vector<SOp> kAll = {{REPORT, 0}, {REPORT, 1}, {BOTH, 0}, {BIG, 0}, {FLUSH, 0}, {FLUSHALL, 0}, {HIGH, 0}, {WRONG, 0}, {EMPTY, 0}};
static const std::vector<SOp> kCore = {{REPORT, 0}, {REPORT, 1}, {BOTH, 0}, {BIG, 0}, {FLUSH, 0}, {FLUSHALL, 0}};

int main(int argc, char** argv) {
  return mc::run_main(argc, argv, "C21", {
    {"2x1", [](int) { Go(2, 1, kAll); }, {0, 1, 2}, {0, 1, 2, 3, 4}, "preemptions", false, "two threads, one operation each, six set-ups"},
    {"2x2", [](int) { Go(2, 2, kCore); }, {0, 1}, {0, 1, 2}, "preemptions", false, "two threads, two operations each, six set-ups"},
    {"3x1", [](int) { Go(3, 1, kCore); }, {0, 1}, {0, 1, 2, 3}, "preemptions", false, "three threads, one operation each, six set-ups"},
    {"3x2", [](int) { Go(3, 2, kCore); }, {}, {0}, "preemptions", false, "three threads, two operations each, six set-ups"},
  });
}
