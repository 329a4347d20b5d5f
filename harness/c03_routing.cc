// C03: reports and checks are routed to cache or server correctly.
#include "check_driver.h"
#include "report_driver.h"
using namespace h;

// Every combination of per-operation importances in one report, with and
// without cached state, followed by a drain.
static void Importances(int len) {
  static const ReportCfg cfgs[] = {{2, 1000}, {0, 1000}, {5, -1}, {-3, 0}};
  ReportRun r(cfgs[mc::choose(4, "config")], P_ROUTE);
  if (mc::choose(2, "warm")) r.Report({0, 1});
  for (int round = 0; round < 2; ++round) {
    int n = mc::choose(len + 1, "operations");
    std::vector<int> ids;
    for (int i = 0; i < n; ++i) ids.push_back(mc::choose(2, "id"));
    int high = n ? mc::choose(n + 1, "high") - 1 : -1;
    r.Report(ids, 1, high, mc::choose(2, "wrong") == 1, 1 + mc::choose(high >= 0 ? 2 : 1, "importance"));
    mc::state(r.State());
  }
  r.Finish();
}
// Reports with many operations: the same verdicts at any length and for an
// important operation at any place.
static void Long(int len) {
  static const int lens[] = {5, 9, 10, 11, 12, 21, 30, 65, 100, 130, 257};
  static const ReportCfg cfgs[] = {{2, 1000}, {0, 1000}, {200, 1000}};
  ReportRun r(cfgs[mc::choose(3, "config")], P_ROUTE);
  int n = lens[mc::choose(len, "operations")];
  std::vector<int> ids;
  bool same = mc::choose(2, "one identity");
  for (int i = 0; i < n; ++i) ids.push_back(same ? 0 : i % 6);
  int high = ChooseMany(n + 1) - 1;
  r.Report(ids, 1, high, mc::choose(2, "wrong") == 1, 1 + mc::choose(high >= 0 ? 2 : 1, "importance"));
  mc::state(r.State());
  r.Finish();
}
// Reports of thousands of operations, one of them important.
static void Huge(int) {
  static const int lens[] = {255, 256, 257, 500, 501, 512, 1000, 1001, 1024, 1025, 4096, 5000};
  static const ReportCfg cfgs[] = {{2, 1000}, {0, 1000}, {6000, 1000}};
  const ReportCfg cfg = cfgs[mc::choose(3, "config")];
  const int n = lens[mc::choose(12, "operations")], where = mc::choose(9, "important");
  static const double at[] = {0, 0.25, 0.5, 0.75, 0.9, 0.99};
  const int high = where == 0 ? -1 : where == 1 ? n - 1 : where == 2 ? n - 2 : (int)(n * at[where - 3]);
  ReportRun r(cfg, P_ROUTE);
  std::vector<int> ids;
  for (int i = 0; i < n; ++i) ids.push_back(10 + i);
  r.Report(ids, 1, high);
  mc::state(mc::strf("%d %d %d", cfg.capacity, n, high));
  r.Finish();
}
// Quota: rejected, handed back or absorbed.
static void Quota(int) {
  int cap = mc::choose(4, "capacity") - 1;
  auto agg = CreateAllocateQuotaAggregator(kService, kConfig, QuotaAggregationOptions(cap, 1000));
  std::vector<AllocateQuotaRequest> sent;
  agg->SetFlushCallback([&](const AllocateQuotaRequest& r) { sent.push_back(r); });
  for (int i = 0; i < 3; ++i) {
    int v = mc::choose(4, "variant");
    AllocateQuotaRequest q;
    q.set_service_name(v == 1 ? "svc2" : v == 3 ? "" : kService);
    if (v != 2) {
      auto* op = q.mutable_allocate_operation();
      op->set_operation_id("x"); op->set_method_name("m"); op->set_consumer_id("c");
      op->set_quota_mode((QuotaOperation::QuotaMode)mc::choose(4, "mode"));
      MetricValueSet* s = op->add_quota_metrics();
      s->set_metric_name("tokens"); s->add_metric_values()->set_int64_value(3);
    }
    AllocateQuotaResponse resp;
    size_t before = sent.size();
    Status s = agg->Quota(q, &resp);
    mc::step();
    mc::trace("capacity %d variant %d -> %s, %zu sent", cap, v, Code(s).c_str(), sent.size());
    int want = v ? (int)StatusCode::kInvalidArgument : cap <= 0 ? (int)StatusCode::kNotFound : 0;
    MC_CHECK((int)s.code() == want, "quota call (variant %d, capacity %d) gives %s", v, cap, s.ToString().c_str());
    if (want) MC_CHECK(sent.size() == before, "refused or handed back quota call sent an allocation by itself");
    mc::validated();
    mc::outcome(mc::strf("%d/%d", want, (int)sent.size()));
    mc::state(mc::strf("%d %d %d", cap, v, (int)sent.size()));
  }
}
// Service names: only the configured one is served, whatever the others look
// like, and whatever the configured one looks like.
static void Names(int) {
  static const string names[] = {"svc", "", "svc2", "sv", "SVC", "Svc", " svc", "svc ", "vc", string("svc\0", 4), string("svc\0x", 5), "svc.example.com", "svc/cfg-1", "cfg-1"};
  const int nn = sizeof names / sizeof names[0];
  static const string mine[] = {"svc", "", "svc.example.com"};
  const string own = mine[mc::choose(3, "configured name")], name = names[mc::choose(nn, "name")];
  const int cap = 2 * mc::choose(2, "capacity"), kind = mc::choose(3, "kind");
  static const int imps[] = {0, 1, 2, 7, -1};
  const int imp = kind < 2 ? imps[mc::choose(5, "importance")] : 0;
  const bool bare = mc::choose(2, "bare"), warm = mc::choose(2, "warm");
  int sent = 0, before = 0;
  Status s;
  bool invalid = name != own;
  int want = invalid ? (int)StatusCode::kInvalidArgument : cap <= 0 || imp != 0 ? (int)StatusCode::kNotFound : 0;
  auto op = [&](Operation* o, int i) {
    o->set_operation_id("x"); o->set_operation_name("op"); o->set_consumer_id("project:p");
    o->set_importance((Operation::Importance)i);
    AddInt64(o, "m", 1);
  };
  if (kind == 0) {
    auto agg = CreateReportAggregator(own, kConfig, ReportAggregationOptions(cap, 1000), nullptr);
    agg->SetFlushCallback([&](const ReportRequest& r) { for (auto& o : r.operations()) for (auto& m : o.metric_value_sets()) sent += m.metric_values(0).int64_value(); });
    if (warm && cap) { ReportRequest q; q.set_service_name(own); op(q.add_operations(), 0); (void)agg->Report(q); before = 1; }
    ReportRequest q;
    q.set_service_name(name);
    if (!bare) op(q.add_operations(), imp);
    else if (want != (int)StatusCode::kInvalidArgument && cap > 0) want = 0;     // nothing of importance
    s = agg->Report(q);
    MC_CHECK(sent == 0, "a single report flushes %d", sent);
    (void)agg->FlushAll();
    MC_CHECK(sent == before + (want == 0 && !bare), "%d operations flushed, expected %d", sent, before + (want == 0 && !bare));
  } else if (kind == 1) {
    auto agg = CreateCheckAggregator(own, kConfig, CheckAggregationOptions(cap, 1000, 2000), nullptr);
    agg->SetFlushCallback([&](const CheckRequest& r) { for (auto& m : r.operation().metric_value_sets()) sent += m.metric_values(0).int64_value(); });
    CheckRequest q;
    q.set_service_name(own);
    op(q.mutable_operation(), 0);
    CheckResponse resp;
    if (warm) { resp.set_operation_id("held"); (void)agg->CacheResponse(q, resp); }
    q.mutable_operation()->set_importance((Operation::Importance)imp);
    q.set_service_name(name);
    if (bare) { q.clear_operation(); invalid = true; want = (int)StatusCode::kInvalidArgument; }
    else if (want == 0 && !warm) want = (int)StatusCode::kNotFound;
    s = agg->Check(q, &resp);
    MC_CHECK(sent == 0, "a single check flushes %d", sent);
    (void)agg->FlushAll();
    MC_CHECK(sent == (want == 0), "%d checks flushed as usage, expected %d", sent, want == 0);
  } else {
    auto agg = CreateAllocateQuotaAggregator(own, kConfig, QuotaAggregationOptions(cap, 1000));
    agg->SetFlushCallback([&](const AllocateQuotaRequest& r) { ++sent; });
    AllocateQuotaRequest q;
    q.set_service_name(own);
    auto* o = q.mutable_allocate_operation();
    o->set_operation_id("x"); o->set_method_name("m"); o->set_consumer_id("c");
    MetricValueSet* m = o->add_quota_metrics();
    m->set_metric_name("tokens"); m->add_metric_values()->set_int64_value(3);
    AllocateQuotaResponse resp;
    if (warm && cap) { (void)agg->Quota(q, &resp); before = 1; }
    q.set_service_name(name);
    if (bare) { q.clear_allocate_operation(); want = (int)StatusCode::kInvalidArgument; }
    s = agg->Quota(q, &resp);
    MC_CHECK(sent == (before || want == 0), "%d allocations sent", sent);
  }
  mc::step();
  mc::trace("kind %d configured '%s' named '%s' capacity %d importance %d bare %d warm %d -> %s", kind, own.c_str(), name.c_str(), cap, imp, bare, warm, Code(s).c_str());
  MC_CHECK((int)s.code() == want, "%s for service '%s' sent to a client of '%s' (capacity %d, importance %d, bare %d) gives %s, expected code %d", kind == 0 ? "report" : kind == 1 ? "check" : "quota call", name.c_str(), own.c_str(), cap, imp, bare, s.ToString().c_str(), want);
  mc::validated();
  mc::outcome(mc::strf("%d/%d", kind, want));
  mc::state(mc::strf("%d %s %s %d %d %d %d", kind, own.c_str(), name.c_str(), cap, imp, bare, warm));
}
// What an operation contains beside its importance makes no difference: any
// fields may be absent, odd or all set.
static void Contents(int) {
  const int kind = mc::choose(3, "kind"), mask = mc::choose(128, "fields"), shape = mc::choose(4, "shape"), imp = kind < 2 ? mc::choose(2, "important") : 0, cap = 2 * mc::choose(2, "capacity");
  if (kind == 2 && (mask & 96)) { mc::prune(); return; }
  int sent = 0;
  auto fill = [&](Operation* o) {
    if (shape == 3) { FillAll(o, mask + 1); o->mutable_metric_value_sets()->Clear(); }
    else o->Clear();
    if (mask & 1) o->set_operation_id(shape == 1 ? string(1, '\0') : "x"); else o->clear_operation_id();
    if (mask & 2) o->set_operation_name(shape == 1 ? " " : "op"); else o->clear_operation_name();
    if (mask & 4) o->set_consumer_id(shape == 1 ? "nobody" : "project:p"); else o->clear_consumer_id();
    if (mask & 8) (*o->mutable_labels())["k"] = shape == 1 ? "" : "v"; else o->clear_labels();
    if (mask & 16) { if (shape == 1) o->add_metric_value_sets(); else AddInt64(o, "m", shape == 2 ? -5 : 5); }
    if (mask & 32) o->add_log_entries(); else o->clear_log_entries();
    o->clear_start_time(); o->clear_end_time();
    if (mask & 64) { SetTs(o->mutable_start_time(), 100, 5); if (shape != 1) SetTs(o->mutable_end_time(), shape == 2 ? 50 : 200, shape == 2 ? -1 : 0); }
    o->set_importance(imp ? Operation::HIGH : Operation::LOW);
  };
  auto same = [&](const string& what, const Status& s, int want) {
    mc::step();
    MC_CHECK((int)s.code() == want, "%s with fields %d (shape %d, important %d, capacity %d) gives %s, expected code %d", what.c_str(), mask, shape, imp, cap, s.ToString().c_str(), want);
    mc::validated();
  };
  const int handed = (int)StatusCode::kNotFound, want = imp || !cap ? handed : 0;
  if (kind == 0) {
    auto agg = CreateReportAggregator(kService, kConfig, ReportAggregationOptions(cap, 1000), nullptr);
    agg->SetFlushCallback([&](const ReportRequest& r) { sent += r.operations_size(); });
    ReportRequest q;
    q.set_service_name(kService);
    fill(q.add_operations());
    mc::trace("report %s", Text(q).c_str());
    for (int i = 0; i < 2; ++i) same(mc::strf("report %d", i), agg->Report(q), want);
    MC_CHECK(sent == 0, "%d operations sent before the flush", sent);
    (void)agg->FlushAll();
    MC_CHECK(sent == (want == 0), "%d operations flushed", sent);
  } else if (kind == 1) {
    auto agg = CreateCheckAggregator(kService, kConfig, CheckAggregationOptions(cap, 1000, 2000), nullptr);
    agg->SetFlushCallback([&](const CheckRequest& r) { ++sent; });
    CheckRequest q;
    q.set_service_name(kService);
    fill(q.mutable_operation());
    mc::trace("check %s", Text(q).c_str());
    CheckResponse resp, out;
    resp.set_operation_id("server");
    same("a first check", agg->Check(q, &out), handed);
    (void)agg->CacheResponse(q, resp);
    same("a second check", agg->Check(q, &out), want);
    MC_CHECK(want || Text(out) == Text(resp), "answered %s", Text(out).c_str());
    MC_CHECK(sent == 0, "%d checks sent before the flush", sent);
    (void)agg->FlushAll();
    MC_CHECK(sent == (want == 0), "%d checks flushed", sent);
  } else {
    auto agg = CreateAllocateQuotaAggregator(kService, kConfig, QuotaAggregationOptions(cap, 1000));
    agg->SetFlushCallback([&](const AllocateQuotaRequest& r) { ++sent; });
    AllocateQuotaRequest q;
    q.set_service_name(kService);
    auto* o = q.mutable_allocate_operation();
    if (shape == 3) { FillAll(o, mask + 1); o->clear_quota_metrics(); }
    if (mask & 1) o->set_operation_id("x"); else o->clear_operation_id();
    if (mask & 2) o->set_method_name("m"); else o->clear_method_name();
    if (mask & 4) o->set_consumer_id("c"); else o->clear_consumer_id();
    if (mask & 8) (*o->mutable_labels())["k"] = "v"; else o->clear_labels();
    if (mask & 16) { MetricValueSet* m = o->add_quota_metrics(); m->set_metric_name(shape == 1 ? "" : "tokens"); m->add_metric_values()->set_int64_value(shape == 2 ? -3 : shape == 1 ? 0 : 3); }
    mc::trace("quota call %s", Text(q).c_str());
    AllocateQuotaResponse resp;
    for (int i = 0; i < 2; ++i) { same(mc::strf("quota call %d", i), agg->Quota(q, &resp), want); MC_CHECK(want || resp.allocate_errors_size() == 0, "denied without an answer"); }
    MC_CHECK(sent == (want == 0), "%d allocations sent", sent);
  }
  mc::outcome(mc::strf("%d/%d", kind, want));
  mc::state(mc::strf("%d %d %d %d %d", kind, mask, shape, imp, cap));
}
int main(int argc, char** argv) {
  return mc::run_main(argc, argv, "C03", {
    {"importances", Importances, {2, 3}, {2, 3, 4}, "operations per report", false, "all importance patterns of two successive reports"},
    {"long", Long, {9}, {11}, "lengths", false, "reports of up to 100 (thorough: 257) operations with an important one at any place"},
    {"huge", Huge, {0}, {0}, "full", false, "reports of up to 5000 operations, one of them important"},
    {"reports", [](int d) { ReportSequences(d, P_ROUTE); }, {3, 4}, {3, 4, 5, 6}, "operations", false, "all report histories: status codes and absence of refused operations in flushes"},
    {"checks", [](int d) { CheckSequences(d, P_CHECKROUTE | P_USAGE, true); }, {3, 4}, {3, 4, 5, 6}, "operations", false, "all check histories: status codes, and refused checks leave no trace"},
    {"names", Names, {0}, {0}, "full", false, "every service name of an alphabet of near misses, configured names, importances (unknown values included)"},
    {"contents", Contents, {0}, {0}, "full", false, "every combination of absent, odd and filled fields, for all three kinds of request"},
    {"quota", Quota, {0}, {0}, "full", false, "quota calls: rejected, handed back, absorbed"},
  });
}
